//! extract <repo> <requests.json> : print, per request, the body of a function of the repository as
//! plain Rust a deductive verifier accepts. Request: {file, owner, trait, fn} (trait "" for an inherent
//! function, owner "" for a free function). The text of the function is kept; what is rewritten:
//!  * comments and attributes are dropped, and what a cfg attribute leaves out of the default build (with log, for LOGGING=log or tracing);
//!  * the crate's logging macros are expanded by their definitions in src/log.rs, with logging off or (LOGGING=log or tracing) on;
//!    an enabled level evaluates its arguments and takes them by reference; debug_assert! becomes an obligation;
//!  * `e.inspect_err(|p| s)`, `e.inspect(|p| s)`, become the match they stand for;
//!  * `if let P = e && c` chains become nested ifs, when there is no else branch;
//!  * `for x in v.iter()` becomes an index loop, `for x in it.by_ref()` a loop over `it.next()`;
//!  * a CtxGuard's drop is written out (`g.drop_()`) where the guard leaves its scope: behind the value of its
//!    block and at every `?` and return (unwinding is not covered); `(self.f)(a)` becomes `self.f.run(a)`;
//!  * comparisons of an Option with `Some(x)`, `as_ref`, `or_else`, `unwrap_or` become the match they stand for;
//!  * the body of a closure returned by a function is taken as the function (closure: true).
use proc_macro2::{Group, Span as S, TokenStream, TokenTree};
use std::collections::{HashMap, HashSet};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Rw {
    opts: HashSet<String>,
    /// variables that hold a Result
    ress: HashSet<String>,
    clos: HashMap<String, (Vec<Pat>, Expr)>,
    local: HashMap<String, (Vec<Pat>, ExprClosure)>,
    /// functions that return a closure: `let h = f(a); h(b)` is `f(a, b)`
    partial: Vec<String>,
    part: HashMap<String, ExprCall>,
    loops: usize,
    notes: Vec<String>,
    fresh: usize,
}

/// the variables a function initialises with an Option
struct Opts(HashSet<String>, HashSet<String>);
impl<'a> Visit<'a> for Opts {
    fn visit_local(&mut self, l: &'a Local) {
        let name = match &l.pat {
            Pat::Ident(i) => i.ident.to_string(),
            Pat::Type(t) => t.pat.to_token_stream().to_string(),
            _ => String::new(),
        };
        if let (false, Some(i)) = (name.is_empty(), &l.init) {
            let t = i.expr.to_token_stream().to_string();
            if t == "None" || t.starts_with("Some (") || is_option(&i.expr, &self.0) {
                self.0.insert(name);
            } else if t.contains("Ok (") || t.contains("Err (") || t.contains("try_mat") || t.contains("construct (") || t.contains("try_parse") {
                self.1.insert(name);
            }
        }
        visit::visit_local(self, l);
    }
}

fn is_option(e: &Expr, opts: &HashSet<String>) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some_and(|i| opts.contains(&i.to_string())),
        Expr::Paren(p) => is_option(&p.expr, opts),
        Expr::MethodCall(c) => match c.method.to_string().as_str() {
            "next" | "ok" | "get" | "get_mut" | "as_ref" | "as_mut" | "take" | "get_by_span" | "pop" | "last" | "checked_add" | "checked_sub" => true,
            "map" | "and_then" | "or_else" | "filter" | "inspect" | "copied" | "cloned" => is_option(&c.receiver, opts),
            m => opts.contains(&format!(".{m}")),
        },
        _ => false,
    }
}

/// `.. if c { s; return e; } rest` -> `.. if c { s; e } else { rest }`: the value of the block
fn no_return(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    let mut out = vec![];
    for (k, s) in stmts.iter().enumerate() {
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let e = r.expr.clone()?;
                out.push(Stmt::Expr(*e, None));
                return Some(out);
            }
            Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) => {
                let (c, t) = (&i.cond, no_return(&i.then_branch.stmts)?);
                let rest = no_return(&stmts[k + 1..])?;
                out.push(Stmt::Expr(parse_quote!(if #c { #(#t)* } else { #(#rest)* }), None));
                return Some(out);
            }
            s => out.push(s.clone()),
        }
    }
    Some(out)
}
struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    // `?` in a closure leaves the closure
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
/// the body of a closure as an expression, its returns turned into the block's value
fn inlined(e: &Expr) -> Option<Expr> {
    let e: Expr = match e {
        Expr::Block(b) => {
            let v = no_return(&b.block.stmts)?;
            parse_quote!({ #(#v)* })
        }
        e => e.clone(),
    };
    let mut h = HasReturn(false);
    h.visit_expr(&e);
    if h.0 { None } else { Some(e) }
}

/// `v[a..]`, which panics beyond the end: an obligation
fn tail_slice(e: &Expr) -> Option<Expr> {
    if let Expr::Index(x) = e {
        if let Expr::Range(r) = &*x.index {
            let v = &x.expr;
            return match (&r.start, &r.limits, &r.end) {
                (Some(a), RangeLimits::HalfOpen(_), None) => Some(parse_quote!(slice_from(&#v, #a))),
                _ => None,
            };
        }
    }
    None
}
/// may be evaluated once per iteration
fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}
/// `v.iter()`, `v.iter().flatten()`, `v.iter_mut()` -> (v, which)
fn iter_of(e: &Expr) -> Option<(Expr, &'static str)> {
    if let Expr::MethodCall(c) = e {
        if c.args.is_empty() {
            match c.method.to_string().as_str() {
                "iter" => return Some(((*c.receiver).clone(), "iter")),
                "iter_mut" => return Some(((*c.receiver).clone(), "iter_mut")),
                "flatten" => if let Some((v, "iter")) = iter_of(&c.receiver) { return Some((v, "flatten")) },
                _ => {}
            }
        }
    }
    None
}

/// "res" when the expression is seen to be a Result
fn recv_kind(e: &Expr, ress: &HashSet<String>) -> String {
    match e {
        Expr::Path(_) if ress.contains(&bare(e)) => "res".into(),
        Expr::MethodCall(c) if matches!(c.method.to_string().as_str(), "map" | "and_then" | "map_err" | "inspect_err" | "as_ref") => recv_kind(&c.receiver, ress),
        Expr::Match(m) => {
            let t = m.arms.first().map(|a| a.pat.to_token_stream().to_string()).unwrap_or_default();
            if t.starts_with("Ok (") { "res".into() } else { String::new() }
        }
        _ => String::new(),
    }
}
fn bare(e: &Expr) -> String {
    match e {
        Expr::Paren(p) => bare(&p.expr),
        e => e.to_token_stream().to_string(),
    }
}
fn loop_no(b: &Block) -> Option<usize> {
    match b.stmts.first() {
        Some(Stmt::Macro(m)) => path_last(&m.mac.path).strip_prefix("__LOOP_").and_then(|n| n.parse().ok()),
        _ => None,
    }
}

fn path_last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn mac_args(m: &Macro) -> Vec<Expr> {
    m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
        .map(|p| p.into_iter().collect())
        .unwrap_or_default()
}

enum M {
    Drop,
    Expr(Expr),
    Keep,
}

/// an arm of a logging macro: the names it binds ("" where it wants a literal or identifier only), its text
#[derive(Clone)]
struct Arm {
    pats: Vec<(String, String)>,
    body: TokenStream,
}
thread_local! {
    /// the logging macros as src/log.rs defines them with logging off, or on
    static MACROS: std::cell::RefCell<(bool, HashMap<String, Vec<Arm>>)> = Default::default();
    static TRACING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
fn split(ts: TokenStream, at: char) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in ts {
        match &t {
            TokenTree::Punct(p) if p.as_char() == at => out.push(std::mem::take(&mut cur).into_iter().collect()),
            _ => cur.push(t),
        }
    }
    if !cur.is_empty() {
        out.push(cur.into_iter().collect());
    }
    out
}
/// None: an arm that is not of the simple form `($a:kind, ..) => {..}`
fn arms(ts: TokenStream) -> Option<Vec<Arm>> {
    let mut out = vec![];
    for arm in split(ts, ';') {
        let t: Vec<TokenTree> = arm.into_iter().collect();
        let (TokenTree::Group(p), TokenTree::Group(b)) = (t.first()?, t.last()?) else { return None };
        let mut pats = vec![];
        for x in split(p.stream(), ',') {
            let v: Vec<String> = x.into_iter().map(|t| t.to_string()).collect();
            match v.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
                ["$", n, ":", k] => pats.push((n.to_string(), k.to_string())),
                _ => return None,
            }
        }
        out.push(Arm { pats, body: b.stream() });
    }
    Some(out)
}
fn load_macros(repo: &str, on: bool) -> std::result::Result<(), String> {
    let src = std::fs::read_to_string(format!("{repo}/src/log.rs")).map_err(|e| e.to_string())?;
    let f = parse_file(&src).map_err(|e| e.to_string())?;
    let mut all: HashMap<String, Vec<Arm>> = HashMap::new();
    for i in &f.items {
        if let Item::Mod(m) = i {
            let cfg = m.attrs.iter().map(|a| a.to_token_stream().to_string().replace(' ', "")).find(|a| a.starts_with("#[cfg("));
            let is_on = match cfg.as_deref() {
                Some("#[cfg(any(feature=\"tracing\",feature=\"log\"))]") | Some("#[cfg(any(feature=\"log\",feature=\"tracing\"))]") => true,
                Some("#[cfg(not(any(feature=\"tracing\",feature=\"log\")))]") | Some("#[cfg(not(any(feature=\"log\",feature=\"tracing\")))]") => false,
                c => return Err(format!("log.rs: a module under {c:?}")),
            };
            if is_on != on {
                continue;
            }
            for x in m.content.as_ref().map(|c| &c.1[..]).unwrap_or(&[]) {
                if let Item::Macro(x) = x {
                    if let (Some(n), Some(a)) = (&x.ident, arms(x.mac.tokens.clone())) {
                        all.insert(n.to_string(), a);
                    }
                }
            }
        }
    }
    MACROS.with(|m| *m.borrow_mut() = (on, all));
    Ok(())
}
/// cfg attributes, for the default features (and log, with logging on). None: one that is not known
fn cfg(attrs: &[Attribute]) -> Option<bool> {
    fn eval(m: &Meta) -> Option<bool> {
        match m {
            Meta::NameValue(n) if n.path.is_ident("feature") => match n.value.to_token_stream().to_string().as_str() {
                "\"std\"" | "\"alloc\"" | "\"default\"" => Some(true),
                "\"log\"" => Some(MACROS.with(|m| m.borrow().0) && !TRACING.get()),
                "\"tracing\"" => Some(TRACING.get()),
                "\"test\"" => Some(false),
                _ => None,
            },
            Meta::Path(p) if p.is_ident("debug_assertions") => Some(true),
            Meta::Path(p) if p.is_ident("test") || p.is_ident("doc") || p.is_ident("docsrs") || p.is_ident("kani") => Some(false),
            Meta::List(l) => {
                let v: Vec<Option<bool>> = l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).ok()?.iter().map(eval).collect();
                let v: Vec<bool> = v.into_iter().collect::<Option<_>>()?;
                match path_last(&l.path).as_str() {
                    "any" => Some(v.into_iter().any(|x| x)),
                    "all" => Some(v.into_iter().all(|x| x)),
                    "not" => v.first().map(|x| !x),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    let mut r = true;
    for a in attrs.iter().filter(|a| a.path().is_ident("cfg")) {
        r &= eval(&a.parse_args::<Meta>().ok()?)?;
    }
    Some(r)
}
fn stmt_attrs(s: &Stmt) -> Vec<Attribute> {
    match s {
        Stmt::Local(l) => l.attrs.clone(),
        Stmt::Macro(m) => m.attrs.clone(),
        Stmt::Expr(e, _) => expr_attrs(e),
        Stmt::Item(i) => match i {
            Item::Fn(f) => f.attrs.clone(),
            Item::Const(f) => f.attrs.clone(),
            Item::Use(f) => f.attrs.clone(),
            _ => vec![],
        },
    }
}
fn expr_attrs(e: &Expr) -> Vec<Attribute> {
    match e {
        Expr::Block(x) => x.attrs.clone(),
        Expr::If(x) => x.attrs.clone(),
        Expr::Match(x) => x.attrs.clone(),
        Expr::While(x) => x.attrs.clone(),
        Expr::ForLoop(x) => x.attrs.clone(),
        Expr::Loop(x) => x.attrs.clone(),
        Expr::Call(x) => x.attrs.clone(),
        Expr::MethodCall(x) => x.attrs.clone(),
        Expr::Assign(x) => x.attrs.clone(),
        Expr::Binary(x) => x.attrs.clone(),
        Expr::Macro(x) => x.attrs.clone(),
        Expr::Return(x) => x.attrs.clone(),
        Expr::Unsafe(x) => x.attrs.clone(),
        _ => vec![],
    }
}
/// removes what a cfg attribute leaves out of the build
struct Cfgs(Option<String>);
impl VisitMut for Cfgs {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match cfg(&stmt_attrs(s)) {
            Some(x) => x,
            None => { self.0 = Some("a cfg attribute that is not known".into()); true }
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| cfg(&a.attrs).unwrap_or_else(|| { self.0 = Some("a cfg attribute that is not known".into()); true }));
        visit_mut::visit_expr_match_mut(self, m);
    }
}
fn subst(ts: TokenStream, b: &HashMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => {
                let n = v[i + 1].to_string();
                if n == "crate" {
                    i += 2; // and the `::`
                    while matches!(v.get(i), Some(TokenTree::Punct(_))) {
                        i += 1;
                    }
                    continue;
                }
                if let Some(t) = b.get(&n) {
                    out.extend(t.clone());
                    i += 2;
                    continue;
                }
                out.push(v[i].clone());
            }
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), subst(g.stream(), b));
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}
/// the expansion of a logging macro, by its definition in src/log.rs
fn expand(name: &str, m: &Macro) -> Option<Expr> {
    let args = split_args(m.tokens.clone());
    let (on, all) = MACROS.with(|m| (m.borrow().0, m.borrow().1.get(name).cloned()));
    if matches!(name, "neure_debug" | "neure_trace" | "debug" | "trace") {
        // an enabled level evaluates the arguments and formats them by reference; a disabled build has nothing
        let a: Vec<TokenStream> = args.into_iter().skip(1).collect();
        return Some(if on { parse_quote!({ #(log_arg(&(#a));)* }) } else { parse_quote!({}) });
    }
    'arm: for arm in all? {
        if arm.pats.len() != args.len() {
            continue;
        }
        let mut b = HashMap::new();
        for ((n, k), a) in arm.pats.iter().zip(&args) {
            let t: Vec<TokenTree> = a.clone().into_iter().collect();
            let ok = match k.as_str() {
                "literal" => matches!(t[..], [TokenTree::Literal(_)]),
                "ident" => matches!(t[..], [TokenTree::Ident(_)]),
                _ => true,
            };
            if !ok {
                continue 'arm;
            }
            b.insert(n.clone(), if k == "expr" && t.len() > 1 { quote!((#a)) } else { a.clone() });
        }
        let body = subst(arm.body, &b);
        return parse2(body.clone()).ok().or_else(|| parse2(quote!({ #body })).ok());
    }
    None
}
fn split_args(ts: TokenStream) -> Vec<TokenStream> {
    // generic arguments have no commas in the arguments of these macros; parse as expressions to be sure
    struct A(Vec<TokenStream>);
    impl parse::Parse for A {
        fn parse(i: parse::ParseStream) -> Result<Self> {
            Ok(A(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated(i)?.into_iter().map(|e| e.to_token_stream()).collect()))
        }
    }
    parse2::<A>(ts).map(|a| a.0).unwrap_or_default()
}

fn log_macro(m: &Macro) -> M {
    let name = path_last(&m.path);
    let args = mac_args(m);
    match name.as_str() {
        "debug_assert" | "assert" => match args.first() {
            Some(e) => M::Expr(parse_quote!(must(#e))),
            None => M::Keep,
        },
        "debug_assert_eq" | "assert_eq" if args.len() >= 2 => {
            let (a, b) = (&args[0], &args[1]);
            M::Expr(parse_quote!(must(#a == #b)))
        }
        "debug_regex_beg" | "debug_ctor_beg" | "debug_ctor_reval" | "neure_debug" | "neure_trace" | "debug_regex_stage" | "debug_ctor_stage"
        | "debug_regex_reval" | "trace_retval" | "debug" | "trace" => match expand(&name, m) {
            Some(Expr::Block(b)) if b.block.stmts.is_empty() => M::Drop,
            Some(e) => M::Expr(e),
            None => M::Keep,
        },
        _ => M::Keep,
    }
}

impl Rw {
    fn mark(&mut self, b: &mut Block) {
        let n = self.loops;
        self.loops += 1;
        let beg = Ident::new(&format!("__LOOP_{n}"), S::call_site());
        let end = Ident::new(&format!("__LOOPEND_{n}"), S::call_site());
        // a trailing expression statement of unit type stays a statement
        if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
            if semi.is_none() {
                *semi = Some(Default::default());
            }
        }
        b.stmts.insert(0, parse_quote!(#beg!();));
        b.stmts.push(parse_quote!(#end!();));
    }
    fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
        if let Expr::Closure(c) = e {
            if c.inputs.len() == 1 {
                let b = inlined(&c.body)?;
                return Some(match &c.inputs[0] {
                    Pat::Type(t) => (parse_quote!(__t), parse_quote!({ let #t = __t; #b })),
                    p => (p.clone(), b),
                });
            }
        }
        None
    }
    fn closure0(e: &Expr) -> Option<Expr> {
        match e {
            Expr::Closure(z) if z.inputs.is_empty() => inlined(&z.body),
            _ => None,
        }
    }
    /// `iter.any(f)`, `iter.all(f)`, `iter.filter(f).count()`, `iter_mut.for_each(f)` -> an index loop
    fn adapter(&mut self, c: &ExprMethodCall) -> Option<Expr> {
        let name = c.method.to_string();
        let (it, clo) = match name.as_str() {
            "any" | "all" | "for_each" if c.args.len() == 1 => ((*c.receiver).clone(), c.args[0].clone()),
            "count" if c.args.is_empty() => match &*c.receiver {
                Expr::MethodCall(f) if f.method == "filter" && f.args.len() == 1 => ((*f.receiver).clone(), f.args[0].clone()),
                _ => return None,
            },
            _ => return None,
        };
        let (v, kind) = iter_of(&it)?;
        let (p, b) = Rw::closure1(&clo)?;
        if (kind == "iter_mut") != (name == "for_each") {
            return None;
        }
        let i = Ident::new(&format!("__i{}", self.fresh), S::call_site());
        let s = Ident::new(&format!("__s{}", self.fresh), S::call_site());
        self.fresh += 1;
        let (pre, v): (Vec<Stmt>, Expr) = match tail_slice(&v) {
            Some(x) => (vec![parse_quote!(let #s = #x;)], parse_quote!(#s)),
            None if is_place(&v) => (vec![], v),
            None => return None,
        };
        self.notes.push(format!("{kind} {name} -> index loop"));
        let one = |x: Expr, body: Expr| -> Expr {
            match kind {
                "flatten" => parse_quote!(match &#v[#i - 1] { Some(__x) => { let #p = #x; #body } None => {} }),
                "iter_mut" => parse_quote!({ let #p = &mut #v[#i - 1]; #body; }),
                _ => parse_quote!({ let __x = &#v[#i - 1]; let #p = #x; #body }),
            }
        };
        Some(match name.as_str() {
            "for_each" => {
                let o = one(parse_quote!(__x), b);
                parse_quote!({ #(#pre)* let mut #i: usize = 0; while #i < #v.len() { #i += 1; #o } })
            }
            "any" => {
                let o = one(parse_quote!(__x), parse_quote!(if #b { __r = true; break; }));
                parse_quote!({ #(#pre)* let mut __r = false; let mut #i: usize = 0; while #i < #v.len() { #i += 1; #o } __r })
            }
            "all" => {
                let o = one(parse_quote!(__x), parse_quote!(if !(#b) { __r = false; break; }));
                parse_quote!({ #(#pre)* let mut __r = true; let mut #i: usize = 0; while #i < #v.len() { #i += 1; #o } __r })
            }
            _ => {
                let o = one(parse_quote!(&__x), parse_quote!(if #b { __n += 1; }));
                parse_quote!({ #(#pre)* let mut __n: usize = 0; let mut #i: usize = 0; while #i < #v.len() { #i += 1; #o } __n })
            }
        })
    }
    /// `if a && b && .. { body }` with a let among the conditions, no else -> nested
    fn chain(e: &ExprIf) -> Option<Expr> {
        fn flat(e: &Expr, out: &mut Vec<Expr>) {
            if let Expr::Binary(b) = e {
                if matches!(b.op, BinOp::And(_)) {
                    flat(&b.left, out);
                    flat(&b.right, out);
                    return;
                }
            }
            out.push(e.clone());
        }
        let mut v = vec![];
        flat(&e.cond, &mut v);
        if v.len() < 2 || !v.iter().any(|x| matches!(x, Expr::Let(_))) || e.else_branch.is_some() {
            return None;
        }
        let body = &e.then_branch;
        let mut r: Expr = {
            let c = v.pop().unwrap();
            parse_quote!(if #c #body)
        };
        while let Some(c) = v.pop() {
            r = parse_quote!(if #c { #r });
        }
        Some(r)
    }
}

impl VisitMut for Rw {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                // a local closure is inlined where it is called
                Stmt::Local(Local { pat: Pat::Ident(i), init: Some(LocalInit { expr, diverge: None, .. }), .. })
                    if matches!(&*expr, Expr::Closure(z) if inlined(&z.body).is_some() && z.capture.is_none()) =>
                {
                    if let Expr::Closure(z) = &*expr {
                        self.notes.push(format!("local closure {} inlined", i.ident));
                        self.clos.insert(i.ident.to_string(), (z.inputs.iter().cloned().collect(), inlined(&z.body).unwrap()));
                    }
                }
                // fn f(p) -> impl Fn { move |q| body }; let c = f(a);
                Stmt::Item(Item::Fn(f)) if matches!(f.block.stmts.last(), Some(Stmt::Expr(Expr::Closure(_), None))) && f.block.stmts.len() == 1 => {
                    if let Some(Stmt::Expr(Expr::Closure(z), None)) = f.block.stmts.last() {
                        let ps = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some((*t.pat).clone()) } else { None }).collect();
                        for a in &f.sig.inputs {
                            if let FnArg::Typed(t) = a {
                                if owner_name(&t.ty) == "Option" { self.opts.insert(t.pat.to_token_stream().to_string()); }
                            }
                        }
                        self.local.insert(f.sig.ident.to_string(), (ps, z.clone()));
                    }
                }
                Stmt::Local(Local { pat: Pat::Ident(i), init: Some(LocalInit { expr, diverge: None, .. }), .. })
                    if matches!(&*expr, Expr::Call(c) if self.local.contains_key(&c.func.to_token_stream().to_string())) =>
                {
                    if let Expr::Call(c) = &*expr {
                        let (ps, z) = self.local[&c.func.to_token_stream().to_string()].clone();
                        self.notes.push(format!("local closure {} inlined", i.ident));
                        let mut pre: Vec<Stmt> = vec![];
                        for (k, (p, a)) in ps.iter().zip(c.args.iter()).enumerate() {
                            let n = Ident::new(&format!("__{}_{k}", i.ident), S::call_site());
                            out.push(parse_quote!(let #n = #a;));
                            pre.push(parse_quote!(let #p = #n;));
                        }
                        let b = inlined(&z.body).unwrap_or_else(|| (*z.body).clone());
                        self.clos.insert(i.ident.to_string(), (z.inputs.iter().cloned().collect(), parse_quote!({ #(#pre)* #b })));
                    }
                }
                Stmt::Local(Local { pat: Pat::Ident(i), init: Some(LocalInit { expr, diverge: None, .. }), .. })
                    if matches!(&*expr, Expr::Call(c) if self.partial.contains(&c.func.to_token_stream().to_string().replace(' ', ""))) =>
                {
                    if let Expr::Call(c) = *expr {
                        self.notes.push(format!("{}(a)(b) -> one call", c.func.to_token_stream().to_string().replace(' ', "")));
                        self.part.insert(i.ident.to_string(), c);
                    }
                }
                Stmt::Macro(m) => match log_macro(&m.mac) {
                    M::Drop => self.notes.push(format!("dropped {}", path_last(&m.mac.path))),
                    M::Expr(e) => out.push(Stmt::Expr(e, m.semi_token)),
                    M::Keep => out.push(Stmt::Macro(m)),
                },
                Stmt::Expr(Expr::Macro(m), semi) => match log_macro(&m.mac) {
                    M::Drop => self.notes.push(format!("dropped {}", path_last(&m.mac.path))),
                    M::Expr(e) => out.push(Stmt::Expr(e, semi)),
                    M::Keep => out.push(Stmt::Expr(Expr::Macro(m), semi)),
                },
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
        // a place behind every loop, for ghost code
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let n = match &s {
                Stmt::Expr(Expr::While(w), _) => loop_no(&w.body),
                Stmt::Expr(Expr::Loop(w), _) => loop_no(&w.body),
                _ => None,
            };
            if let (Some(_), Stmt::Expr(Expr::While(_), semi)) = (&n, &mut s) {
                *semi = Some(Default::default());
            }
            out.push(s);
            if let Some(n) = n {
                let after = Ident::new(&format!("__AFTER_{n}"), S::call_site());
                out.push(parse_quote!(#after!();));
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            let adapted = if let Expr::MethodCall(c) = &*e { let c = c.clone(); self.adapter(&c) } else { None };
            if let Some(n) = adapted {
                *e = n;
                continue;
            }
            let new: Option<Expr> = match e {
                // by reference: x.as_ref() of a Result
                Expr::MethodCall(c) if c.method == "as_ref" && c.args.is_empty() && self.ress.contains(&bare(&c.receiver)) => {
                    let r = &c.receiver;
                    Some(parse_quote!(match &#r { Ok(__v) => Ok(__v), Err(__e) => Err(__e) }))
                }
                Expr::MethodCall(c) if matches!(c.method.to_string().as_str(), "map" | "and_then") && matches!(&*c.receiver, Expr::MethodCall(a) if a.method == "as_ref" && self.ress.contains(&bare(&a.receiver))) => {
                    if let Expr::MethodCall(a) = &mut *c.receiver {
                        let r = &a.receiver;
                        *c.receiver = parse_quote!(match &#r { Ok(__v) => Ok(__v), Err(__e) => Err(__e) });
                    }
                    continue;
                }
                // a comparison of Options: None is below every Some
                Expr::Binary(b) if matches!(b.op, BinOp::Ge(_) | BinOp::Gt(_) | BinOp::Le(_) | BinOp::Lt(_)) && is_option(&b.left, &self.opts) => {
                    let below = matches!(b.op, BinOp::Le(_) | BinOp::Lt(_));
                    let (l, op) = (&b.left, &b.op);
                    match &*b.right {
                        Expr::Call(c) if bare(&c.func) == "Some" && c.args.len() == 1 => {
                            let r = &c.args[0];
                            Some(parse_quote!(match #l { Some(__v) => __v #op #r, None => #below }))
                        }
                        _ => None,
                    }
                }
                // a call of a function held in a field
                Expr::Call(c) if matches!(&*c.func, Expr::Paren(p) if matches!(&*p.expr, Expr::Field(_))) => {
                    let (f, a) = (match &*c.func { Expr::Paren(p) => &p.expr, _ => unreachable!() }, c.args.iter());
                    Some(parse_quote!(#f.run(#(#a),*)))
                }
                Expr::Macro(m) if path_last(&m.mac.path) == "vec" && m.mac.tokens.to_string().replace(' ', "").starts_with("vec![];") => {
                    let n: Option<Expr> = parse_str(m.mac.tokens.to_string().split_once(';').unwrap().1).ok();
                    n.map(|n| parse_quote!(empty_vecs(#n)))
                }
                Expr::Macro(m) => match log_macro(&m.mac) {
                    M::Expr(x) => Some(x),
                    M::Drop => Some(parse_quote!(())),
                    M::Keep => None,
                },
                Expr::MethodCall(c) if c.args.len() == 1 => {
                    let name = c.method.to_string();
                    let recv = (*c.receiver).clone();
                    let opt = is_option(&recv, &self.opts) && recv_kind(&recv, &self.ress) != "res";
                    match (name.as_str(), Rw::closure1(&c.args[0])) {
                        ("inspect_err", Some((p, b))) => {
                            self.notes.push("inspect_err -> match".into());
                            let bind: Stmt = if matches!(p, Pat::Wild(_)) { parse_quote!({}) } else { parse_quote!(let #p = &__e;) };
                            Some(parse_quote!(match #recv { Ok(__v) => Ok(__v), Err(__e) => { #bind #b; Err(__e) } }))
                        }
                        ("and_then", Some((p, b))) if !opt => {
                            self.notes.push("and_then -> match".into());
                            Some(parse_quote!(match #recv { Ok(#p) => #b, Err(__e) => Err(__e) }))
                        }
                        ("and_then", Some((p, b))) => Some(parse_quote!(match #recv { Some(#p) => #b, None => None })),
                        ("map", Some((p, b))) if opt => Some(parse_quote!(match #recv { Some(#p) => Some(#b), None => None })),
                        ("map", Some((p, b))) => Some(parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })),
                        ("map_err", Some((p, b))) => Some(parse_quote!(match #recv { Ok(__v) => Ok(__v), Err(#p) => Err(#b) })),
                        ("inspect", Some((Pat::Wild(_), b))) if opt => Some(parse_quote!(match #recv { Some(__v) => { #b; Some(__v) } None => None })),
                        ("map", None) if opt && matches!(&c.args[0], Expr::Path(_)) => {
                            let f = &c.args[0];
                            Some(parse_quote!(match #recv { Some(__v) => Some(#f(__v)), None => None }))
                        }
                        ("map", None) if matches!(&c.args[0], Expr::Path(_)) => {
                            let f = &c.args[0];
                            Some(parse_quote!(match #recv { Ok(__v) => Ok(#f(__v)), Err(__e) => Err(__e) }))
                        }
                        ("filter", Some((p, b))) if opt => Some(parse_quote!(match #recv { Some(__v) => { let __k = { let #p = &__v; #b }; if __k { Some(__v) } else { None } } None => None })),
                        ("is_some_and", Some((p, b))) if opt => Some(parse_quote!(match #recv { Some(#p) => #b, None => false })),
                        ("is_none_or", Some((p, b))) if opt => Some(parse_quote!(match #recv { Some(#p) => #b, None => true })),
                        ("is_ok_and", Some((p, b))) => Some(parse_quote!(match #recv { Ok(#p) => #b, Err(_) => false })),
                        ("is_err_and", Some((p, b))) => Some(parse_quote!(match #recv { Ok(_) => false, Err(#p) => #b })),
                        ("or_else", None) if opt => Rw::closure0(&c.args[0]).map(|b| parse_quote!(match #recv { Some(__v) => Some(__v), None => #b })),
                        ("unwrap_or_else", None) if opt => Rw::closure0(&c.args[0]).map(|b| parse_quote!(match #recv { Some(__v) => __v, None => #b })),
                        ("unwrap_or_else", Some((p, b))) if !opt => Some(parse_quote!(match #recv { Ok(__v) => __v, Err(#p) => #b })),
                        ("ok_or_else", None) if opt => Rw::closure0(&c.args[0]).map(|b| parse_quote!(match #recv { Some(__v) => Ok(__v), None => Err(#b) })),
                        ("then", None) => Rw::closure0(&c.args[0]).map(|b| parse_quote!(if #recv { Some(#b) } else { None })),
                        ("then_some", None) => {
                            let d = &c.args[0];
                            Some(parse_quote!({ let __c = #recv; let __d = #d; if __c { Some(__d) } else { None } }))
                        }
                        ("or_else", Some((Pat::Wild(_), b))) if !opt => Some(parse_quote!(match #recv { Ok(__v) => Ok(__v), Err(_) => #b })),
                        ("unwrap_or", None) if !opt && matches!(&*recv_kind(&recv, &self.ress), "res") => {
                            let d = &c.args[0];
                            Some(parse_quote!(match #recv { Ok(__v) => __v, Err(_) => #d }))
                        }
                        ("unwrap_or", None) if opt => {
                            let d = &c.args[0];
                            Some(parse_quote!(match #recv { Some(__v) => __v, None => #d }))
                        }
                        ("ok_or", None) if opt => {
                            let d = &c.args[0];
                            Some(parse_quote!(match #recv { Some(__v) => Ok(__v), None => Err(#d) }))
                        }
                        _ => None,
                    }
                }
                Expr::MethodCall(c) if c.args.len() == 2 && (c.method == "map_or" || c.method == "map_or_else") => {
                    let recv = (*c.receiver).clone();
                    let opt = is_option(&recv, &self.opts) && recv_kind(&recv, &self.ress) != "res";
                    let d = &c.args[0];
                    match (c.method == "map_or", Rw::closure0(d), Rw::closure1(&c.args[1])) {
                        (true, _, Some((p, b))) if opt => Some(parse_quote!({ let __r = #recv; let __d = #d; match __r { Some(#p) => #b, None => __d } })),
                        (false, Some(d), Some((p, b))) if opt => Some(parse_quote!(match #recv { Some(#p) => #b, None => #d })),
                        _ => None,
                    }
                }
                Expr::MethodCall(c) if c.args.is_empty() && is_option(&c.receiver, &self.opts) => {
                    let recv = &c.receiver;
                    match c.method.to_string().as_str() {
                        "copied" => Some(parse_quote!(match #recv { Some(__v) => Some(*__v), None => None })),
                        "unwrap_or_default" => Some(parse_quote!(match #recv { Some(__v) => __v, None => 0 })),
                        _ => None,
                    }
                }
                Expr::MethodCall(c) if c.args.is_empty() && c.method == "ok" => {
                    let recv = &c.receiver;
                    self.notes.push("ok -> match".into());
                    Some(parse_quote!(match #recv { Ok(__v) => Some(__v), Err(_) => None }))
                }
                // V::from_iter(from_fn(|| b)): what b yields until it first yields nothing
                Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().ends_with(":: from_iter") => match &c.args[0] {
                    Expr::Call(f) if f.args.len() == 1 && f.func.to_token_stream().to_string().ends_with("from_fn") => match &f.args[0] {
                        Expr::Closure(z) if z.inputs.is_empty() => inlined(&z.body).map(|b| {
                            self.notes.push("from_iter(from_fn(closure)) -> loop over the closure's body until it yields None".into());
                            parse_quote!({ let mut __acc = acc_new(); loop { match #b { Some(__x) => { __acc.push(__x); } None => { break; } } } acc_done(__acc) })
                        }),
                        _ => None,
                    },
                    _ => None,
                },
                Expr::Call(c) if self.part.contains_key(&bare(&c.func)) => {
                    let f = &self.part[&bare(&c.func)];
                    let (g, a, b) = (&f.func, f.args.iter(), c.args.iter());
                    Some(parse_quote!(#g(#(#a,)* #(#b),*)))
                }
                // Context::f(&mut x, ..): x.f(..)
                Expr::Call(c) if !c.args.is_empty() && c.func.to_token_stream().to_string().replace(' ', "").starts_with("Context::") => {
                    let recv = match &c.args[0] { Expr::Reference(r) => (*r.expr).clone(), e => e.clone() };
                    let (f, a) = (match &*c.func { Expr::Path(p) => p.path.segments.last().unwrap().ident.clone(), _ => unreachable!() }, c.args.iter().skip(1));
                    Some(parse_quote!(#recv.#f(#(#a),*)))
                }
                // a call of a function held in a variable
                Expr::Call(c) if matches!(&*c.func, Expr::Paren(p) if matches!(&*p.expr, Expr::Path(q) if q.path.get_ident().is_some_and(|i| !self.clos.contains_key(&i.to_string())))) => {
                    let (f, a) = (match &*c.func { Expr::Paren(p) => &p.expr, _ => unreachable!() }, c.args.iter());
                    Some(parse_quote!(#f.run(#(#a),*)))
                }
                // a call of a local closure
                Expr::Call(c) => match &*c.func {
                    Expr::Path(p) => p.path.get_ident().and_then(|i| self.clos.get(&i.to_string())).and_then(|(ps, b)| {
                        let args = c.args.iter();
                        if ps.len() != c.args.len() { return None; }
                        if ps.is_empty() { return Some(b.clone()); }
                        Some(parse_quote!({ #(let #ps = #args;)* #b }))
                    }),
                    _ => None,
                },
                Expr::Repeat(r) if r.expr.to_token_stream().to_string() == "const { None }" => Some(parse_quote!(none_array())),
                Expr::Range(r) => match (&r.start, &r.limits, &r.end) {
                    (Some(a), RangeLimits::HalfOpen(_), Some(b)) => Some(parse_quote!(rb::excl(#a, #b))),
                    (Some(a), RangeLimits::Closed(_), Some(b)) => Some(parse_quote!(rb::incl(#a, #b))),
                    (Some(a), RangeLimits::HalfOpen(_), None) => Some(parse_quote!(rb::from(#a))),
                    _ => None,
                },
                Expr::Index(_) => tail_slice(e),
                Expr::If(i) => Rw::chain(i),
                Expr::ForLoop(f) => {
                    if let Expr::MethodCall(c) = &*f.expr {
                        let (pat, body, recv) = (&f.pat, &f.body.stmts, &c.receiver);
                        let i = Ident::new(&format!("__i{}", self.fresh), S::call_site());
                        match (c.method.to_string().as_str(), c.args.len()) {
                            ("iter", 0) => {
                                self.fresh += 1;
                                self.notes.push("for over slice -> index loop".into());
                                Some(parse_quote!({ let mut #i: usize = 0; while #i < #recv.len() { let #pat = &#recv[#i]; #i += 1; #(#body)* } }))
                            }
                            ("by_ref", 0) => {
                                self.notes.push("for over by_ref -> loop".into());
                                Some(parse_quote!(loop { match #recv.next() { Some(#pat) => { #(#body)* } None => { break; } } }))
                            }
                            _ => None,
                        }
                    } else {
                        None
                    }
                }
                _ => None,
            };
            match new {
                Some(n) => *e = n,
                None => break,
            }
        }
        // `while let` is a loop with a match: the verifier wants a plain loop
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x, b) = (&l.pat, &l.expr, &w.body.stmts);
                self.notes.push("while let -> loop".into());
                *e = parse_quote!(loop { match #x { #p => { #(#b)* } _ => { break; } } });
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::While(w) => self.mark(&mut w.body),
            Expr::Loop(w) => self.mark(&mut w.body),
            _ => {}
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

/// makes the drop of a CtxGuard explicit: `x.drop_()` where the guard goes out of scope, which is at the end
/// of its block (behind the block's value) and where `?` or return leave the function
struct Guards {
    live: Vec<String>,
    loops: usize,
    err: Option<String>,
    n: usize,
}
impl Guards {
    fn drops(&self, from: usize) -> Vec<Stmt> {
        self.live[from..].iter().rev().map(|g| { let g = Ident::new(g, S::call_site()); parse_quote!(#g.drop_();) }).collect()
    }
}
impl VisitMut for Guards {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let base = self.live.len();
        let mut out = vec![];
        let last = b.stmts.len().saturating_sub(1);
        for (k, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            if let Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: None, .. }), .. }) = &mut s {
                let is = matches!(&**expr, Expr::Call(c) if c.func.to_token_stream().to_string().replace(' ', "").ends_with("CtxGuard::new"));
                if is {
                    self.visit_expr_mut(expr);
                    match pat {
                        Pat::Ident(i) if !self.live.contains(&i.ident.to_string()) && self.loops == 0 => self.live.push(i.ident.to_string()),
                        _ => self.err = Some("a guard that is bound in an unexpected way".into()),
                    }
                    out.push(s);
                    continue;
                }
            }
            match s {
                Stmt::Expr(mut e, None) if k == last && self.live.len() > base => {
                    self.visit_expr_mut(&mut e);
                    self.n += 1;
                    let r = Ident::new(&format!("__ret{}", self.n), S::call_site());
                    out.push(parse_quote!(let #r = #e;));
                    out.extend(self.drops(base));
                    out.push(Stmt::Expr(parse_quote!(#r), None));
                }
                mut s => {
                    let diverges = matches!(&s, Stmt::Expr(Expr::Return(_), _));
                    self.visit_stmt_mut(&mut s);
                    out.push(s);
                    if k == last && self.live.len() > base && !diverges {
                        out.extend(self.drops(base));
                    }
                }
            }
        }
        self.live.truncate(base);
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let w = matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_));
        self.loops += w as usize;
        visit_mut::visit_expr_mut(self, e);
        self.loops -= w as usize;
        if self.live.is_empty() {
            return;
        }
        let new: Option<Expr> = match e {
            Expr::Try(t) => {
                let (x, d) = (&t.expr, self.drops(0));
                Some(parse_quote!(match #x { Ok(__v) => __v, Err(__e) => { #(#d)* return Err(__e); } }))
            }
            Expr::Return(r) => {
                let d = self.drops(0);
                match &r.expr {
                    Some(x) => Some(parse_quote!({ let __ret = #x; #(#d)* return __ret; })),
                    None => Some(parse_quote!({ #(#d)* return; })),
                }
            }
            Expr::Closure(_) => {
                self.err = Some("a closure beside a guard".into());
                None
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
    // the guard's name means the guard wherever it is dropped
    fn visit_pat_ident_mut(&mut self, i: &mut PatIdent) {
        if self.live.contains(&i.ident.to_string()) {
            self.err = Some(format!("{} is bound again beside the guard", i.ident));
        }
    }
}

fn owner_name(t: &Type) -> String {
    match t {
        Type::Path(p) => path_last(&p.path),
        Type::Reference(r) => format!("&{}", owner_name(&r.elem)),
        t => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn walk<'a>(items: &'a [Item], out: &mut Vec<(&'a ItemImpl, &'a ImplItemFn)>, free: &mut Vec<&'a ItemFn>, st: &mut Vec<&'a ItemStruct>) {
    for i in items {
        match i {
            Item::Impl(im) if cfg(&im.attrs) != Some(false) => {
                for x in &im.items {
                    if let ImplItem::Fn(f) = x && cfg(&f.attrs) != Some(false) {
                        out.push((im, f));
                    }
                }
            }
            Item::Fn(f) if cfg(&f.attrs) != Some(false) => free.push(f),
            Item::Struct(s) => st.push(s),
            Item::Mod(m) if cfg(&m.attrs) != Some(false) => {
                if let Some((_, v)) = &m.content {
                    walk(v, out, free, st);
                }
            }
            Item::Trait(_) => {}
            _ => {}
        }
    }
}

fn default_method<'a>(items: &'a [Item], tr: &str, name: &str) -> Option<(&'a Signature, &'a Block)> {
    for i in items {
        match i {
            Item::Trait(t) if t.ident == tr => {
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                return Some((&f.sig, b));
                            }
                        }
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, v)) = &m.content {
                    if let Some(r) = default_method(v, tr, name) {
                        return Some(r);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let reqs: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
    let mut res = vec![];
    let mode = std::env::var("LOGGING").unwrap_or_default();
    TRACING.set(mode == "tracing");
    let macros = load_macros(&a[1], mode == "log" || mode == "tracing");
    for r in reqs.as_array().unwrap() {
        let g = |k: &str| r[k].as_str().unwrap_or("").to_string();
        let (file, owner, tr, name) = (g("file"), g("owner"), g("trait"), g("fn"));
        let one = || -> std::result::Result<Value, String> {
            macros.clone()?;
            let src = std::fs::read_to_string(format!("{}/{}", a[1], file)).map_err(|e| e.to_string())?;
            let f = parse_file(&src).map_err(|e| e.to_string())?;
            let (mut impls, mut free, mut st) = (vec![], vec![], vec![]);
            walk(&f.items, &mut impls, &mut free, &mut st);
            let mut found: Vec<(Signature, Block)> = vec![];
            if r["default"].as_bool() == Some(true) {
                if let Some((s, b)) = default_method(&f.items, &tr, &name) {
                    found.push((s.clone(), b.clone()));
                }
            } else if owner.is_empty() {
                for x in free.iter().filter(|x| x.sig.ident == name) {
                    found.push((x.sig.clone(), (*x.block).clone()));
                }
            } else {
                for (im, x) in impls.iter().filter(|(im, x)| {
                    let t = im.trait_.as_ref().map(|t| path_last(&t.1)).unwrap_or_default();
                    x.sig.ident == name && owner_name(&im.self_ty) == owner && t == tr
                        && r["ty"].as_str().is_none_or(|ty| im.self_ty.to_token_stream().to_string().replace(' ', "") == ty)
                }) {
                    let _ = im;
                    found.push((x.sig.clone(), x.block.clone()));
                }
            }
            if found.len() != 1 {
                return Err(format!("{} functions {name} of {tr} for {owner} in {file}", found.len()));
            }
            let (sig, mut block) = found.pop().unwrap();
            let mut params: Vec<String> = sig
                .inputs
                .iter()
                .map(|i| match i {
                    FnArg::Receiver(_) => "self".to_string(),
                    FnArg::Typed(t) => t.pat.to_token_stream().to_string(),
                })
                .collect();
            let original = block.to_token_stream().to_string();
            if let Some(name) = r["local"].as_str() {
                // let name = |params| { body };
                let c = block.stmts.iter().find_map(|s| match s {
                    Stmt::Local(Local { pat: Pat::Ident(i), init: Some(LocalInit { expr, .. }), .. }) if i.ident == name => match &**expr {
                        Expr::Closure(c) => Some(c.clone()),
                        _ => None,
                    },
                    _ => None,
                });
                let c = c.ok_or_else(|| format!("no local closure {name}"))?;
                params = c.inputs.iter().map(|p| match p {
                    Pat::Type(t) => t.pat.to_token_stream().to_string(),
                    p => p.to_token_stream().to_string(),
                }).collect();
                block = match *c.body {
                    Expr::Block(b) => b.block,
                    e => parse_quote!({ #e }),
                };
            }
            if r["closure"].as_bool() == Some(true) || r["closure"].is_string() {
                // fn name(..) -> impl Fn(..) { [move] |params| { body } }
                let c = match block.stmts.last() {
                    Some(Stmt::Expr(Expr::Closure(c), None)) if block.stmts.len() == 1 => c.clone(),
                    // core::iter::from_fn(move || { body }): one step of the iterator
                    Some(Stmt::Expr(Expr::Call(f), None)) if block.stmts.len() == 1 && f.func.to_token_stream().to_string().ends_with("from_fn") => match f.args.first() {
                        Some(Expr::Closure(c)) => c.clone(),
                        _ => return Err(format!("{name} does not return a closure")),
                    },
                    _ => return Err(format!("{name} does not return a closure")),
                };
                for p in &c.inputs {
                    params.push(match p {
                        Pat::Type(t) => t.pat.to_token_stream().to_string(),
                        p => p.to_token_stream().to_string(),
                    });
                }
                block = match *c.body {
                    Expr::Block(b) => b.block,
                    e => parse_quote!({ #e }),
                };
            }
            let mut cf = Cfgs(None);
            cf.visit_block_mut(&mut block);
            if let Some(e) = cf.0 {
                return Err(format!("{name}: {e}"));
            }
            let mut opts = Opts(HashSet::new(), HashSet::new());
            if let Some(a) = r["opt"].as_str() {
                opts.0.extend(a.split(',').map(String::from));
            }
            opts.visit_block(&block);
            let mut rw = Rw { opts: opts.0, ress: opts.1, clos: HashMap::new(), local: HashMap::new(), part: HashMap::new(), partial: r["partial"].as_str().map(|a| a.split(',').map(String::from).collect()).unwrap_or_default(), loops: 0, notes: vec![], fresh: 0 };
            rw.visit_block_mut(&mut block);
            let mut gd = Guards { live: vec![], loops: 0, err: None, n: 0 };
            gd.visit_block_mut(&mut block);
            if let Some(e) = gd.err {
                return Err(format!("{name}: {e}"));
            }
            let body: TokenStream = block.to_token_stream();
            rw.notes.sort();
            rw.notes.dedup();
            let text = quote!(fn __f() #body).to_string();
            Ok(json!({"text": text, "params": params, "loops": rw.loops, "notes": rw.notes, "original": original,
                      "sig": sig.to_token_stream().to_string()}))
        };
        res.push(match one() {
            Ok(v) => v,
            Err(e) => json!({"error": e}),
        });
    }
    println!("{}", serde_json::to_string(&res).unwrap());
}
