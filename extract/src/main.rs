//! vp-extract SRC_DIR TEMPLATE OUT
//!
//! Joins functions of the crate (taken from SRC_DIR on every run) with the contracts in TEMPLATE and writes one file
//! for Verus. The rules that are applied to the functions are purely syntactic; DESIGN.md lists them.
//! Exit 3: something the template names isn't there (or can't be expressed) any more.
mod fmtspec;
mod rules;
use proc_macro2::TokenStream;
use std::collections::HashMap;
use std::path::{Path, PathBuf};

#[derive(Default, Clone)]
pub struct Block {
    pub file: String,
    pub path: String,
    pub ret: Option<String>,
    pub rettype: Option<String>,
    pub name: Option<String>,
    pub generics: Option<String>,
    pub inputs: Option<String>,
    pub spec: String,
    pub loops: HashMap<usize, String>,
    pub proofs: Vec<(String, String)>,
    pub closures: HashMap<usize, String>,
    pub keep: Vec<String>,
    pub rename: Vec<(String, String)>,
    /// functions that act on the world outside of the program
    pub io: Vec<String>,
    pub shape: Option<(usize, usize)>,
    pub nopub: bool,
    pub attrs: String,
    pub deref_self: bool,
    pub fields: Vec<(String, String)>,
    /// a fragment: the statements of one block, from the one that starts with this text ...
    pub from: Option<String>,
    /// ... to the one that starts with this text (or the end of the block)
    pub to: Option<String>,
    /// a fragment: the body of the match arm with this pattern
    pub arm: Option<String>,
    /// the body of the closure in a variable of this name (as a function, so it can't capture anything)
    pub lift: Option<String>,
    /// the variables of closures that are functions of their own
    pub lifted: Vec<String>,
    /// what a fragment returns
    pub tail: Option<String>,
}

pub struct Sources {
    pub dir: PathBuf,
    pub files: HashMap<String, syn::File>,
    /// constants whose value is a literal
    pub consts: HashMap<String, syn::Lit>,
}

pub fn die(m: impl std::fmt::Display) -> ! {
    println!("extract: {m}");
    std::process::exit(3)
}

impl Sources {
    fn load(dir: &Path) -> Sources {
        let mut s = Sources { dir: dir.into(), files: HashMap::new(), consts: HashMap::new() };
        s.load_dir(dir, "");
        s
    }
    fn load_dir(&mut self, dir: &Path, prefix: &str) {
        let mut entries: Vec<_> = std::fs::read_dir(dir).unwrap_or_else(|e| die(format!("{dir:?}: {e}"))).flatten().collect();
        entries.sort_by_key(|e| e.file_name());
        for e in entries {
            let name = format!("{prefix}{}", e.file_name().to_string_lossy());
            if e.path().is_dir() {
                self.load_dir(&e.path(), &format!("{name}/"));
            } else if name.ends_with(".rs") {
                let text = std::fs::read_to_string(e.path()).unwrap();
                let Ok(file) = syn::parse_file(&text) else { die(format!("{name} doesn't parse")) };
                for i in &file.items {
                    let (id, ex) = match i {
                        syn::Item::Const(c) => (&c.ident, &*c.expr),
                        syn::Item::Static(c) => (&c.ident, &*c.expr),
                        _ => continue,
                    };
                    if let syn::Expr::Lit(l) = ex {
                        self.consts.insert(id.to_string(), l.lit.clone());
                    }
                }
                self.files.insert(name, file);
            }
        }
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("test") || (a.path().is_ident("cfg") && quote::quote!(#a).to_string().contains("test")))
}

/// `name`, `Type::name` or `Trait@Type::name`
pub fn find_fn<'a>(src: &'a Sources, file: &str, path: &str) -> (syn::Signature, &'a syn::Block) {
    let Some(f) = src.files.get(file) else { die(format!("no file {file}")) };
    let mut found: Vec<(syn::Signature, &syn::Block)> = vec![];
    let (tr, rest) = match path.split_once('@') {
        Some((t, r)) => (Some(t), r),
        None => (None, path),
    };
    fn items<'a>(list: &'a [syn::Item], tr: Option<&str>, rest: &str, found: &mut Vec<(syn::Signature, &'a syn::Block)>) {
        for i in list {
            match i {
                syn::Item::Fn(f) if tr.is_none() && f.sig.ident == rest && !is_test(&f.attrs) => found.push((f.sig.clone(), &*f.block)),
                syn::Item::Impl(im) => {
                    let Some((ty, name)) = rest.rsplit_once("::") else { continue };
                    let self_ty = &im.self_ty;
                    let ty_text = quote::quote!(#self_ty).to_string().replace(' ', "");
                    let base = ty_text.split('<').next().unwrap_or("").to_string();
                    if base != ty && ty_text != ty {
                        continue;
                    }
                    let im_tr = im.trait_.as_ref().map(|t| {
                        let p = &t.1;
                        quote::quote!(#p).to_string().replace(' ', "")
                    });
                    let ok = match (tr, &im_tr) {
                        (None, None) => true,
                        (Some(t), Some(u)) => u == t || u.split('<').next().and_then(|x| x.rsplit("::").next()) == Some(t),
                        _ => false,
                    };
                    if !ok {
                        continue;
                    }
                    for x in &im.items {
                        if let syn::ImplItem::Fn(m) = x {
                            if m.sig.ident == name && !is_test(&m.attrs) {
                                found.push((m.sig.clone(), &m.block));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    items(&f.items, tr, rest, &mut found);
    if found.len() != 1 {
        die(format!("{} functions {path} in {file}", found.len()));
    }
    found.remove(0)
}

fn find_type(src: &Sources, file: &str, name: &str) -> syn::Item {
    let Some(f) = src.files.get(file) else { die(format!("no file {file}")) };
    for i in &f.items {
        match i {
            syn::Item::Struct(s) if s.ident == name => return i.clone(),
            syn::Item::Enum(s) if s.ident == name => return i.clone(),
            _ => {}
        }
    }
    die(format!("no type {name} in {file}"))
}

pub fn parse_tokens(t: &str, what: &str) -> TokenStream {
    t.parse().unwrap_or_else(|_| die(format!("template: {what} doesn't lex")))
}

struct Out {
    text: String,
    /// (first line, last line, name, kind)
    map: Vec<(usize, usize, String, &'static str)>,
    used: Vec<String>,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = Sources::load(Path::new(&a[1]));
    let head = concat!("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_assignments, unused_braces, non_snake_case, unreachable_code, unused_must_use, non_camel_case_types, unused_labels)]\n#![verifier::loop_isolation(false)]\n");
    let mut out = Out { text: head.to_string(), map: vec![], used: vec![] };
    template(&src, Path::new(&a[2]), false, &mut out);
    out.text.push_str("fn main() {}\n");
    std::fs::write(&a[3], &out.text).unwrap();
    let mut m = String::new();
    for (s, e, n, k) in &out.map {
        m.push_str(&format!("{s}\t{e}\t{n}\t{k}\n"));
    }
    std::fs::write(format!("{}.map", a[3]), m).unwrap();
}

fn template(src: &Sources, path: &Path, assume: bool, out: &mut Out) {
    let key = path.file_name().unwrap().to_string_lossy().to_string();
    if out.used.contains(&key) {
        return;
    }
    out.used.push(key);
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| die(format!("{path:?}: {e}")));
    let mut lines = text.lines().peekable();
    while let Some(l) = lines.next() {
        let t = l.trim();
        let Some(d) = t.strip_prefix("//@") else {
            out.text.push_str(l);
            out.text.push('\n');
            continue;
        };
        let w: Vec<&str> = d.split_whitespace().collect();
        match w[0] {
            // lemmas and theorems that no other unit needs
            "own" => {
                if assume {
                    while lines.next().is_some_and(|l| l.trim() != "//@own-end") {}
                }
            }
            "own-end" => {}
            "use" => template(src, &path.parent().unwrap().join(w[1]), true, out),
            "include" => template(src, &path.parent().unwrap().join(w[1]), assume, out),
            "type" => {
                let mut item = find_type(src, w[1], w[2]);
                rules::clean_type(&mut item);
                let derive = if w.len() > 3 { format!("#[derive({})]\n", w[3..].join(", ")) } else { String::new() };
                out.text.push_str(&derive);
                out.text.push_str(&rules::print(quote::quote!(#item)));
                out.text.push('\n');
            }
            // //@calls NAME FN ...: these functions (and no others) call NAME
            "calls" => {
                let mut want: Vec<String> = w[2..].iter().map(|x| x.to_string()).collect();
                want.sort();
                let got = callers(src, w[1]);
                if got != want {
                    die(format!("{} is called by {got:?}, the contracts are for {want:?}", w[1]));
                }
            }
            // //@struct FILE NAME <GENERICS> field field=TYPE ...: a struct with some of its fields
            "struct" => {
                let mut item = find_type(src, w[1], w[2]);
                rules::clean_type(&mut item);
                let syn::Item::Struct(st) = &item else { die(format!("{} is no struct", w[2])) };
                let mut o = format!("pub struct {}{} {{\n", w[2], w[3].trim_start_matches('-'));
                for f in &w[4..] {
                    let (n, t) = match f.split_once('=') {
                        Some((n, t)) => (n, Some(t.replace('~', " "))),
                        None => (*f, None),
                    };
                    let Some(x) = st.fields.iter().find(|x| x.ident.as_ref().is_some_and(|i| i == n)) else { die(format!("no field {n} in {}", w[2])) };
                    let ty = &x.ty;
                    o.push_str(&format!("    pub {n}: {},\n", t.unwrap_or_else(|| rules::print(quote::quote!(#ty)))));
                }
                out.text.push_str(&o);
                out.text.push_str("}\n");
            }
            // an array of string literals
            "static" => {
                let (file, name) = (w[1], w[2]);
                let item = src.files.get(file).and_then(|f| f.items.iter().find_map(|i| match i {
                    syn::Item::Static(s) if s.ident == name => Some((*s.expr).clone()),
                    syn::Item::Const(s) if s.ident == name => Some((*s.expr).clone()),
                    _ => None,
                }));
                let mut e = item.unwrap_or_else(|| die(format!("no static {name} in {file}")));
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(n), .. }) = &e {
                    out.text.push_str(&format!("pub const {name}: usize = {n};\n"));
                    continue;
                }
                if let syn::Expr::Reference(r) = e {
                    e = *r.expr;
                }
                let syn::Expr::Array(a) = e else { die(format!("static {name} is no array")) };
                if a.elems.iter().all(|x| matches!(x, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(_), .. }))) {
                    let n = a.elems.len();
                    out.text.push_str(&format!("pub exec const {name}: [char; {n}] ensures {name}@ == seq!{1} {{ {0} }}\n", quote::quote!(#a), quote::quote!(#a)));
                    continue;
                }
                let mut list = vec![];
                for x in &a.elems {
                    match x {
                        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => list.push(s.value()),
                        _ => die(format!("static {name} holds something else than string literals")),
                    }
                }
                let n = name.to_lowercase();
                out.text.push_str(&format!("/// The elements of {name} ({file})\npub open spec fn is_{n}(t: Seq<char>) -> bool {{\n"));
                for t in &list {
                    let c: Vec<String> = t.chars().map(|c| format!("{c:?}")).collect();
                    out.text.push_str(&format!("  ||| t == seq![{}]\n", c.join(", ")));
                }
                out.text.push_str(&format!(
                    "}}\n#[verifier::external_body]\npub fn vx_{n}() -> (r: Vec<&'static str>) ensures forall|i: int| 0 <= i < r@.len() ==> is_{n}(#[trigger] r@[i]@), forall|t: Seq<char>| #[trigger] is_{n}(t) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i]@ == t {{ unimplemented!() }}\n"
                ));
            }
            // the code of an impl block has to contain exactly these functions and no others
            "fn" => {
                let mut b = Block { file: w[1].into(), path: w[2..].join(" "), ..Block::default() };
                let mut section: (String, String) = (String::new(), String::new());
                let mut flush = |b: &mut Block, s: &mut (String, String)| {
                    let (h, body) = std::mem::take(s);
                    let h: Vec<&str> = h.split_whitespace().collect();
                    match h.first().copied() {
                        None => {}
                        Some("spec") => b.spec = body,
                        Some("attrs") => b.attrs = body,
                        Some("loop") => {
                            b.loops.insert(h[1].parse().unwrap(), body);
                        }
                        Some("closure") => {
                            b.closures.insert(h[1].parse().unwrap(), body);
                        }
                        Some("proof") => b.proofs.push((h[1..].join(" "), body)),
                        Some(x) => die(format!("template: section {x}")),
                    }
                };
                loop {
                    let Some(l) = lines.next() else { die(format!("template: no //@end for {}", b.path)) };
                    let t = l.trim();
                    if let Some(d) = t.strip_prefix("//@") {
                        let (k, v) = d.split_once(' ').unwrap_or((d, ""));
                        match k {
                            "end" => {
                                flush(&mut b, &mut section);
                                break;
                            }
                            "ret" => b.ret = Some(v.into()),
                            "rettype" => b.rettype = Some(v.into()),
                            "name" => b.name = Some(v.into()),
                            "generics" => b.generics = Some(v.into()),
                            "inputs" => b.inputs = Some(v.into()),
                            "keep" => b.keep.extend(v.split_whitespace().map(|x| x.to_string())),
                            "rename" => {
                                let (x, y) = v.split_once(" => ").unwrap_or_else(|| die("template: rename"));
                                b.rename.push((x.trim().into(), y.trim().into()));
                            }
                            "io" => b.io.extend(v.split_whitespace().map(|x| x.to_string())),
                            "from" => b.from = Some(v.replace(' ', "")),
                            "to" => b.to = Some(v.replace(' ', "")),
                            "arm" => b.arm = Some(v.replace(' ', "")),
                            "lift" => b.lift = Some(v.into()),
                            "lifted" => b.lifted.push(v.into()),
                            "tail" => b.tail = Some(v.into()),
                            "nopub" => b.nopub = true,
                            "shape" => {
                                let n: Vec<usize> = v.split_whitespace().map(|x| x.parse().unwrap()).collect();
                                b.shape = Some((n[0], n[1]));
                            }
                            "spec" | "loop" | "proof" | "closure" | "attrs" => {
                                flush(&mut b, &mut section);
                                section.0 = d.to_string();
                            }
                            _ => die(format!("template: //@{d}")),
                        }
                    } else {
                        section.1.push_str(l);
                        section.1.push('\n');
                    }
                }
                let first = out.text.lines().count() + 1;
                emit(src, &b, assume, out);
                let last = out.text.lines().count();
                let kind = if assume { "assumed" } else { "verified" };
                // an arm of a match has a name of its own
                let part = match (b.arm.as_ref().or(b.lift.as_ref()), &b.name) { (Some(_), Some(n)) => format!("#{n}"), _ => String::new() };
                out.map.push((first, last, format!("{}:{}{part}", b.file, b.path), kind));
            }
            x => die(format!("template: directive {x}")),
        }
    }
}

/// The functions (outside of tests) that call a function or method of this name
fn callers(src: &Sources, name: &str) -> Vec<String> {
    struct C<'a>(&'a str, Vec<String>, std::collections::BTreeSet<String>);
    impl<'ast> syn::visit::Visit<'ast> for C<'_> {
        fn visit_item_mod(&mut self, i: &'ast syn::ItemMod) {
            if !is_test(&i.attrs) {
                syn::visit::visit_item_mod(self, i);
            }
        }
        fn visit_item_fn(&mut self, i: &'ast syn::ItemFn) {
            if !is_test(&i.attrs) {
                self.1.push(i.sig.ident.to_string());
                syn::visit::visit_item_fn(self, i);
                self.1.pop();
            }
        }
        fn visit_impl_item_fn(&mut self, i: &'ast syn::ImplItemFn) {
            if !is_test(&i.attrs) {
                self.1.push(i.sig.ident.to_string());
                syn::visit::visit_impl_item_fn(self, i);
                self.1.pop();
            }
        }
        fn visit_expr_method_call(&mut self, i: &'ast syn::ExprMethodCall) {
            if i.method == self.0 {
                self.2.insert(self.1.last().cloned().unwrap_or_default());
            }
            syn::visit::visit_expr_method_call(self, i);
        }
        fn visit_expr_path(&mut self, i: &'ast syn::ExprPath) {
            if i.path.segments.last().is_some_and(|s| s.ident == self.0) {
                self.2.insert(self.1.last().cloned().unwrap_or_default());
            }
        }
    }
    let mut c = C(name, vec![], Default::default());
    for f in src.files.values() {
        syn::visit::Visit::visit_file(&mut c, f);
    }
    c.2.into_iter().collect()
}

fn has_return(s: &syn::Stmt) -> bool {
    struct R(bool);
    impl<'ast> syn::visit::Visit<'ast> for R {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut r = R(false);
    syn::visit::Visit::visit_stmt(&mut r, s);
    r.0
}

/// The statements of the only block with a statement that starts with `from`
fn fragment(block: &syn::Block, from: &str, to: Option<&str>) -> Result<syn::Block, usize> {
    struct Find<'a>(&'a str, Vec<(syn::Block, usize)>);
    impl<'ast> syn::visit::Visit<'ast> for Find<'_> {
        fn visit_block(&mut self, b: &'ast syn::Block) {
            for (i, s) in b.stmts.iter().enumerate() {
                if quote::quote!(#s).to_string().replace([' ', '\n'], "").starts_with(self.0) {
                    self.1.push((b.clone(), i));
                }
            }
            syn::visit::visit_block(self, b);
        }
    }
    let mut f = Find(from, vec![]);
    syn::visit::Visit::visit_block(&mut f, block);
    if f.1.len() != 1 {
        return Err(f.1.len());
    }
    let (mut b, i) = f.1.remove(0);
    // the fragment is reached unless the function fails
    for s in &b.stmts[..i] {
        if has_return(s) {
            return Err(0);
        }
    }
    b.stmts.drain(..i);
    if let Some(to) = to {
        let n = b.stmts.iter().position(|s| quote::quote!(#s).to_string().replace([' ', '\n'], "").starts_with(to));
        match n {
            Some(n) => b.stmts.truncate(n + 1),
            None => return Err(0),
        }
    }
    Ok(b)
}

/// The body of the only arm with this pattern (and guard)
fn find_arm(block: &syn::Block, pattern: &str) -> Result<syn::Block, usize> {
    struct Find<'a>(&'a str, Vec<syn::Expr>);
    impl<'ast> syn::visit::Visit<'ast> for Find<'_> {
        fn visit_arm(&mut self, a: &'ast syn::Arm) {
            let p = &a.pat;
            let g = a.guard.as_ref().map(|(_, g)| quote::quote!(if #g));
            if quote::quote!(#p #g).to_string().replace([' ', '\n'], "") == self.0 {
                self.1.push((*a.body).clone());
            }
            syn::visit::visit_arm(self, a);
        }
    }
    let mut f = Find(pattern, vec![]);
    syn::visit::Visit::visit_block(&mut f, block);
    if f.1.len() != 1 {
        return Err(f.1.len());
    }
    Ok(match f.1.remove(0) {
        syn::Expr::Block(b) if b.label.is_none() => b.block,
        e => syn::parse_quote!({ #e; }),
    })
}

/// The closure of the only `let` with this name; takes the statement out of the block
fn take_closure(block: &mut syn::Block, name: &str) -> Result<syn::ExprClosure, usize> {
    struct Take<'a>(&'a str, Vec<syn::ExprClosure>);
    impl syn::visit_mut::VisitMut for Take<'_> {
        fn visit_block_mut(&mut self, b: &mut syn::Block) {
            let found = &mut self.1;
            b.stmts.retain(|s| {
                if let syn::Stmt::Local(l) = s {
                    if let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                        if let (true, syn::Expr::Closure(c)) = (p.ident == self.0, &*i.expr) {
                            found.push(c.clone());
                            return false;
                        }
                    }
                }
                true
            });
            syn::visit_mut::visit_block_mut(self, b);
        }
    }
    let mut t = Take(name, vec![]);
    syn::visit_mut::VisitMut::visit_block_mut(&mut t, block);
    if t.1.len() != 1 {
        return Err(t.1.len());
    }
    Ok(t.1.remove(0))
}

fn emit(src: &Sources, b: &Block, assume: bool, out: &mut Out) {
    let (mut sig, block) = find_fn(src, &b.file, &b.path);
    let mut block = block.clone();
    let what = format!("{} in {}", b.path, b.file);
    let mut rw = rules::Rewrite::new(src, b, &what);
    rw.signature(&mut sig);
    if let Some(a) = &b.arm {
        block = find_arm(&block, a).unwrap_or_else(|n| die(format!("{what}: {n} arms have the pattern {a}")));
        if b.inputs.is_none() || b.name.is_none() {
            die("template: an arm needs a name and inputs");
        }
        sig.output = syn::ReturnType::Default;
    }
    for l in &b.lifted {
        take_closure(&mut block, l).unwrap_or_else(|n| die(format!("{what}: {n} closures have the name {l}")));
    }
    if let Some(l) = &b.lift {
        let c = take_closure(&mut block, l).unwrap_or_else(|n| die(format!("{what}: {n} closures have the name {l}")));
        if b.inputs.is_none() || b.name.is_none() {
            die("template: a closure needs a name and inputs");
        }
        block = match *c.body {
            syn::Expr::Block(b) if b.label.is_none() => b.block,
            e => syn::parse_quote!({ #e }),
        };
        sig.output = syn::ReturnType::Default;
    }
    // a `mut self` receiver becomes a variable
    if let Some(from) = &b.from {
        block = fragment(&block, from, b.to.as_deref()).unwrap_or_else(|n| die(format!("{what}: {n} statements start with {from}")));
        if b.inputs.is_none() || b.name.is_none() {
            die("template: a fragment needs a name and inputs");
        }
        sig.output = syn::ReturnType::Default;
    }
    if let Some(t) = &b.tail {
        let t: syn::Expr = syn::parse2(parse_tokens(t, &what)).unwrap_or_else(|e| die(format!("{what}: {e}")));
        // what an arm's last expression returns is `()`
        if let Some(syn::Stmt::Expr(_, semi @ None)) = block.stmts.last_mut() {
            *semi = Some(Default::default());
        }
        block.stmts.push(syn::Stmt::Expr(t, None));
    }
    let mut_self = b.from.is_none() && b.arm.is_none() && b.lift.is_none() && matches!(sig.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.reference.is_none() && r.mutability.is_some());
    if mut_self {
        if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
            r.mutability = None;
        }
        let t = rules::rename_self(quote::ToTokens::to_token_stream(&block));
        block = syn::parse2(t).unwrap_or_else(|e| die(format!("{what}: {e}")));
    }
    if !assume {
        rw.body(&mut block);
        if mut_self {
            block.stmts.insert(0, syn::parse_quote!(let mut vx_self = self;));
        }
    }
    let name = b.name.clone().unwrap_or_else(|| sig.ident.to_string());
    let mut h = String::new();
    h.push_str(&b.attrs);
    if assume {
        h.push_str("#[verifier::external_body]\n");
    }
    if !b.nopub {
        h.push_str("pub ");
    }
    let inputs = &sig.inputs;
    let generics = &sig.generics;
    let g = b.generics.clone().unwrap_or_else(|| quote::quote!(#generics).to_string());
    let i = b.inputs.clone().unwrap_or_else(|| quote::quote!(#inputs).to_string());
    h.push_str(&format!("fn {name}{g}({i})"));
    let rt = match (&b.rettype, &sig.output) {
        (Some(t), _) => Some(t.clone()),
        (None, syn::ReturnType::Default) => None,
        (None, syn::ReturnType::Type(_, t)) => Some(quote::quote!(#t).to_string()),
    };
    if let Some(t) = rt {
        match &b.ret {
            Some(r) => h.push_str(&format!(" -> ({r}: {t})")),
            None => h.push_str(&format!(" -> {t}")),
        }
    }
    if let (Some(w), None) = (&generics.where_clause, &b.generics) {
        h.push_str(&format!(" {}", quote::quote!(#w)));
    }
    h.push('\n');
    h.push_str(&b.spec);
    out.text.push_str(&h);
    if assume {
        out.text.push_str("{ unimplemented!() }\n");
    } else {
        out.text.push_str(&rules::print(quote::quote!(#block)));
        out.text.push('\n');
    }
}
