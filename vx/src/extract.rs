use crate::spec::*;
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::Path;
use syn::spanned::Spanned;
use syn::visit::Visit;

pub struct Out {
    pub text: String,
    pub map: Value,
}

#[derive(Clone, Debug)]
struct Edit {
    s: usize,
    e: usize,
    t: String,
    seq: usize,
}

struct Ctx<'a> {
    src: &'a str,
    edits: Vec<Edit>,
    drops: Vec<String>,
    rc: bool,
}

fn br(sp: Span) -> (usize, usize) {
    let r = sp.byte_range();
    (r.start, r.end)
}

impl<'a> Ctx<'a> {
    fn edit(&mut self, s: usize, e: usize, t: impl Into<String>) {
        let seq = self.edits.len();
        // an outer replacement swallows the edits inside it
        if e > s {
            self.edits.retain(|x| !(x.s >= s && x.e <= e && !(x.s == x.e && (x.s == s || x.s == e))));
        }
        self.edits.push(Edit { s, e, t: t.into(), seq });
    }
    fn render(&self, s: usize, e: usize) -> String {
        let mut v: Vec<&Edit> = self.edits.iter().filter(|x| x.s >= s && x.e <= e).collect();
        v.sort_by_key(|x| (x.s, x.e != x.s, x.seq));
        let mut out = String::new();
        let mut p = s;
        for x in v {
            if x.s < p {
                continue;
            }
            out.push_str(&self.src[p..x.s]);
            out.push_str(&x.t);
            p = x.e;
        }
        out.push_str(&self.src[p..e]);
        out
    }
}

/// whitespace-insensitive search of `pat` in `hay`; returns byte range of first match
fn ws_find(hay: &str, pat: &str, from: usize) -> Option<(usize, usize)> {
    let h = hay.as_bytes();
    let p: Vec<u8> = pat.bytes().filter(|c| !c.is_ascii_whitespace()).collect();
    if p.is_empty() {
        return None;
    }
    let mut i = from;
    while i < h.len() {
        if h[i] == p[0] && !(is_id(p[0]) && i > 0 && is_id(h[i - 1])) {
            let (mut a, mut b) = (i, 0);
            while a < h.len() && b < p.len() {
                if h[a].is_ascii_whitespace() {
                    a += 1;
                    continue;
                }
                if h[a] != p[b] {
                    break;
                }
                a += 1;
                b += 1;
            }
            if b == p.len() && !(is_id(p[b - 1]) && a < h.len() && is_id(h[a])) {
                return Some((i, a));
            }
        }
        i += 1;
    }
    None
}
fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}
pub fn norm(s: &str) -> String {
    // canonical short form of a type / header: drop spaces except between words
    let mut out = String::new();
    let mut prev = ' ';
    for tok in s.split_whitespace() {
        let f = tok.chars().next().unwrap();
        if !out.is_empty() && (prev.is_alphanumeric() || prev == '_' || prev == '>') && (f.is_alphanumeric() || f == '_') {
            out.push(' ');
        }
        out.push_str(tok);
        prev = tok.chars().last().unwrap();
    }
    out
}

/// loop headers in source order and a hash of the token text of a body (comments and layout do not count)
fn fingerprint(b: &syn::Block) -> (Vec<String>, String) {
    struct K(Vec<String>);
    impl<'ast> Visit<'ast> for K {
        fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
            self.0.push(format!("for {}", toks(&e.pat)));
            syn::visit::visit_expr_for_loop(self, e)
        }
        fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
            self.0.push(if matches!(&*e.cond, syn::Expr::Let(_)) { "while let".into() } else { "while".into() });
            syn::visit::visit_expr_while(self, e)
        }
        fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
            self.0.push("loop".into());
            syn::visit::visit_expr_loop(self, e)
        }
    }
    fn toks<T: quote::ToTokens>(t: &T) -> String {
        quote::ToTokens::to_token_stream(t).to_string()
    }
    let mut k = K(vec![]);
    k.visit_block(b);
    let mut h: u64 = 0xcbf29ce484222325;
    for c in toks(b).bytes() {
        h = (h ^ c as u64).wrapping_mul(0x100000001b3);
    }
    (k.0, format!("{:016x}", h))
}

struct LoopInfo {
    ordinal: usize,
    ivar: String,
}

struct BodyVisitor<'c, 'a> {
    cx: &'c mut Ctx<'a>,
    fs: Option<&'c FnSpec>,
    default_loop: Option<String>,
    loop_n: usize,
    loops: Vec<LoopInfo>,
    locals: Vec<String>,
    calls: Vec<String>,
}

impl<'c, 'a> BodyVisitor<'c, 'a> {
    fn loop_text(&self, n: usize) -> LoopSpec {
        if let Some(fs) = self.fs {
            if let Some(l) = fs.loops.get(&n) {
                return l.clone();
            }
        }
        LoopSpec { clauses: self.default_loop.clone().unwrap_or_default(), ..Default::default() }
    }
    fn put_loop(&mut self, n: usize, ivar: String, body: &syn::Block, whole: Span, pre_body: String) {
        let ls = self.loop_text(n);
        let (bs, be) = br(body.span());
        let (ws, we) = br(whole);
        let has_i = self.fs.map(|x| x.locals.iter().any(|l| l == "i")).unwrap_or(false);
        let sub = |t: &str| if has_i { t.to_string() } else { replace_word(t, "$i", &ivar) };
        let mark = |t: &str| t.to_string();
        self.cx.edit(bs, bs, format!("\n{} ", mark(&sub(&ls.clauses))));
        let st = sub(&ls.start);
        self.cx.edit(bs + 1, bs + 1, format!("{}{}", pre_body, st));
        if !ls.end.is_empty() {
            self.cx.edit(be - 1, be - 1, sub(&ls.end));
        }
        if !ls.before.is_empty() {
            self.cx.edit(ws, ws, sub(&ls.before));
        }
        if !ls.after.is_empty() {
            self.cx.edit(we, we, sub(&ls.after));
        }
        self.loops.push(LoopInfo { ordinal: n, ivar });
    }
}

fn str_lits(p: &syn::Pat) -> Option<Vec<String>> {
    match p {
        syn::Pat::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some(vec![s.token().to_string()]),
            _ => None,
        },
        syn::Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_lits(c)?);
            }
            Some(v)
        }
        _ => None,
    }
}
fn filter_map_chain(m: &syn::ExprMethodCall) -> Option<(&syn::Expr, &syn::ExprClosure)> {
    if m.method != "collect" || !m.args.is_empty() {
        return None;
    }
    let syn::Expr::MethodCall(f) = &*m.receiver else { return None };
    if f.method != "filter_map" || f.args.len() != 1 {
        return None;
    }
    let syn::Expr::Closure(c) = &f.args[0] else { return None };
    let syn::Expr::MethodCall(i) = &*f.receiver else { return None };
    if i.method != "into_iter" || !i.args.is_empty() || c.inputs.len() != 1 {
        return None;
    }
    // `return` and `?` leave the closure, not the function
    struct Leaves(bool);
    impl<'ast> Visit<'ast> for Leaves {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
            self.0 = true;
        }
    }
    let mut l = Leaves(false);
    l.visit_expr(&c.body);
    if l.0 {
        return None;
    }
    Some((&*i.receiver, c))
}
fn peel_ref(e: &syn::Expr) -> &syn::Expr {
    match e {
        syn::Expr::Reference(r) => peel_ref(&r.expr),
        syn::Expr::Paren(r) => peel_ref(&r.expr),
        _ => e,
    }
}

impl<'c, 'a, 'ast> Visit<'ast> for BodyVisitor<'c, 'a> {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.locals.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (s, e) = br(a.span());
        self.cx.edit(s, e, "");
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        // <v>.into_iter().filter_map(|p| body).collect()  =>  a loop that moves the elements out of v one by one
        let chain = filter_map_chain(m);
        let fm_n = self.loop_n;
        if chain.is_some() {
            self.loop_n += 1;
        }
        syn::visit::visit_expr_method_call(self, m);
        if let Some((src, c)) = chain {
            let n = fm_n;
            let ls = self.loop_text(n);
            let (a, b) = br(src.span());
            let srct = self.cx.render(a, b);
            let (a, b) = br(c.inputs[0].span());
            let pat = self.cx.render(a, b);
            let (a, b) = br(c.body.span());
            let body = self.cx.render(a, b);
            let (s, e) = br(m.span());
            self.cx.edit(s, e, format!("{{ let mut vp_q{n} = {srct}; let mut vp_o{n} = Vec::new(); {}while vp_q{n}.len() > 0 \n{} {{ let {pat} = vp_q{n}.remove(0); {} let vp_x{n} = {body}; if let Some(vp_y{n}) = vp_x{n} {{ vp_o{n}.push(vp_y{n}); }} {} }} {}vp_o{n} }}", ls.before, ls.clauses, ls.start, ls.end, ls.after));
            self.loops.push(LoopInfo { ordinal: n, ivar: String::new() });
        }
        self.calls.push(m.method.to_string());
        if m.args.is_empty() && (m.method == "into_owned" || m.method == "to_string") {
            if let syn::Expr::Call(c) = &*m.receiver {
                if norm(&c.func.to_token_stream().to_string()).replace(' ', "") == "String::from_utf8_lossy" && c.args.len() == 1 {
                    let (a, b) = br(c.args[0].span());
                    let t = self.cx.render(a, b);
                    let (s, e) = br(m.span());
                    self.cx.edit(s, e, format!("vp_lossy({})", t));
                }
            }
        }
        if self.cx.rc && (m.method == "borrow" || m.method == "borrow_mut") && m.args.is_empty() {
            let (_, re) = br(m.receiver.span());
            let (_, me) = br(m.span());
            self.cx.edit(re, me, "");
        }
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        syn::visit::visit_expr_match(self, m);
        // match on string literals -> guards over vp_str_eq
        if m.arms.iter().any(|a| str_lits(&a.pat).is_some()) {
            for a in &m.arms {
                if let Some(l) = str_lits(&a.pat) {
                    let g: Vec<String> = l.iter().map(|x| format!("vp_str_eq(vp_m, {})", x)).collect();
                    let (s, e) = br(a.pat.span());
                    let conj = if a.guard.is_some() { "".into() } else { format!(" if {}", g.join(" || ")) };
                    self.cx.edit(s, e, format!("vp_m{}", conj));
                }
            }
        }
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(s) = p.path.segments.last() {
                self.calls.push(s.ident.to_string());
            }
            let pn = norm(&p.to_token_stream().to_string()).replace(' ', "");
            for (from, to) in [("String::from", "vp_string_from"), ("isize::try_from", "vp_isize_try_from"), ("Vec::from", "vp_vec_from"), ("std::mem::take", "vp_take"), ("std::cmp::min", "vp_min"), ("std::cmp::max", "vp_max"), ("core::cmp::min", "vp_min"), ("core::cmp::max", "vp_max")] {
                if pn == from {
                    let (s, e) = br(c.func.span());
                    self.cx.edit(s, e, to);
                }
            }
            if self.cx.rc {
                let n = norm(&p.to_token_stream().to_string());
                if (n == "Rc::new" || n == "RefCell::new") && c.args.len() == 1 {
                    let (s, e) = br(c.span());
                    let (as_, ae) = br(c.args[0].span());
                    let t = self.cx.render(as_, ae);
                    self.cx.edit(s, e, t);
                }
            }
        }
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        syn::visit::visit_local(self, l);
        if self.cx.rc {
            if let Some(i) = &l.init {
                if let syn::Expr::MethodCall(m) = &*i.expr {
                    if (m.method == "borrow" || m.method == "borrow_mut") && m.args.is_empty() {
                        let (s, _) = br(i.expr.span());
                        self.cx.edit(s, s, if m.method == "borrow" { "&" } else { "&mut " });
                    }
                }
            }
        }
    }
    fn visit_expr_unary(&mut self, u: &'ast syn::ExprUnary) {
        syn::visit::visit_expr_unary(self, u);
        if self.cx.rc && matches!(u.op, syn::UnOp::Deref(_)) {
            if let syn::Expr::MethodCall(m) = &*u.expr {
                if m.method == "borrow" || m.method == "borrow_mut" {
                    let (s, e) = br(u.op.span());
                    self.cx.edit(s, e, "");
                }
            }
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let (s, e) = br(m.span());
        match name.as_str() {
            n if n.starts_with("println") || n.starts_with("eprintln") || n == "print" || n == "dbg" => {
                self.cx.drops.push(format!("macro {}! (debug print)", n));
                self.cx.edit(s, e, "()");
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => self.cx.edit(s, e, "vp_panic()"),
            "cfg" => {
                self.cx.drops.push(format!("{} -> false", norm(&m.to_token_stream().to_string())));
                self.cx.edit(s, e, "false");
            }
            "format" => {
                self.cx.drops.push("format! -> unspecified String".into());
                self.cx.edit(s, e, "vp_format()");
            }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => self.cx.edit(s, e, "()"),
            "assert" => {
                let t = m.tokens.to_string();
                self.cx.edit(s, e, format!("vp_assert({})", t));
            }
            _ => {}
        }
    }
    fn visit_expr_lit(&mut self, l: &'ast syn::ExprLit) {
        if let syn::Lit::ByteStr(b) = &l.lit {
            let (s, e) = br(l.span());
            let v: Vec<String> = b.value().iter().map(|x| format!("{}u8", x)).collect();
            self.cx.edit(s, e, format!("&[{}]", v.join(", ")));
        }
    }
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        let n = self.loop_n;
        self.loop_n += 1;
        syn::visit::visit_expr_while(self, w);
        self.put_loop(n, "vp_noindex".into(), &w.body, w.span(), String::new());
    }
    fn visit_expr_loop(&mut self, w: &'ast syn::ExprLoop) {
        let n = self.loop_n;
        self.loop_n += 1;
        syn::visit::visit_expr_loop(self, w);
        self.put_loop(n, "vp_noindex".into(), &w.body, w.span(), String::new());
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        let n = self.loop_n;
        self.loop_n += 1;
        syn::visit::visit_expr_for_loop(self, f);
        let (fs, _) = br(f.for_token.span());
        let (bs, be) = br(f.body.span());
        let iv = format!("vp_i{}", n);
        // for <pat> in <e>.iter().enumerate()
        let mut base: Option<(usize, usize)> = None;
        let mut by_ref = true;
        let mut idxpat: Option<String> = None;
        let mut elpat: Option<String> = None;
        let mut limit: Option<String> = None;
        let mut is_range = false;
        let patspan = br(f.pat.span());
        let mut cur: &syn::Expr = &f.expr;
        let mut enumerated = false;
        loop {
            match cur {
                syn::Expr::MethodCall(m) if m.method == "enumerate" && !enumerated => {
                    enumerated = true;
                    cur = &m.receiver;
                }
                syn::Expr::MethodCall(m) if m.method == "take" && m.args.len() == 1 && limit.is_none() => {
                    let (a, b) = br(m.args[0].span());
                    limit = Some(self.cx.render(a, b));
                    cur = &m.receiver;
                }
                syn::Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                    base = Some(br(m.receiver.span()));
                    break;
                }
                syn::Expr::MethodCall(m) if m.method == "copied" || m.method == "cloned" => {
                    by_ref = false;
                    cur = &m.receiver;
                }
                syn::Expr::Range(_) => {
                    is_range = true;
                    break;
                }
                syn::Expr::Path(_) | syn::Expr::Field(_) => {
                    base = Some(br(cur.span()));
                    break;
                }
                syn::Expr::Reference(r) => {
                    base = Some(br(peel_ref(&r.expr).span()));
                    break;
                }
                _ => break,
            }
        }
        if is_range && !enumerated {
            if let syn::Expr::Range(r) = &*f.expr {
                // for p in a..b  => while with explicit index (continue-safe)
                if let (Some(a), Some(b)) = (&r.start, &r.end) {
                    let (s1, e1) = br(a.span());
                    let (s2, e2) = br(b.span());
                    let a = self.cx.render(s1, e1);
                    let b = self.cx.render(s2, e2);
                    let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
                    if !incl {
                        let pat = self.cx.render(patspan.0, patspan.1);
                        self.cx.edit(fs, bs, format!("let vp_e{n} = {b}; let mut {iv} = {a}; if {iv} > vp_e{n} {{ {iv} = vp_e{n}; }} while {iv} < vp_e{n} "));
                        self.cx.edit(fs, fs, "{ ");
                        self.put_loop(n, iv.clone(), &f.body, f.span(), format!("let {pat} = {iv}; {iv} = {iv} + 1; "));
                        self.cx.edit(be, be, " }");
                        return;
                    }
                }
            }
        }
        if let Some((s, e)) = base {
            let basetext = self.cx.render(s, e);
            match (&*f.pat, enumerated) {
                (syn::Pat::Tuple(t), true) if t.elems.len() == 2 => {
                    let (a, b) = br(t.elems[0].span());
                    idxpat = Some(self.cx.render(a, b));
                    let (a, b) = br(t.elems[1].span());
                    elpat = Some(self.cx.render(a, b));
                }
                (_, false) => {
                    elpat = Some(self.cx.render(patspan.0, patspan.1));
                }
                _ => {}
            }
            if let Some(elpat) = elpat {
                let lim = match limit {
                    Some(l) => format!("{{ let vp_l = vp_s{n}.len(); let vp_t: usize = {l}; if vp_t < vp_l {{ vp_t }} else {{ vp_l }} }}"),
                    None => format!("vp_s{n}.len()"),
                };
                let idx = idxpat.map(|p| format!("let {p} = {iv}; ")).unwrap_or_default();
                let amp = if by_ref { "&" } else { "" };
                // element access happens after the index is advanced so that `continue` in the body is safe
                self.cx.edit(fs, bs, format!("let vp_s{n} = vp_slice(&{basetext}); let vp_e{n} = {lim}; let mut {iv}: usize = 0; while {iv} < vp_e{n} "));
                self.cx.edit(fs, fs, "{ ");
                self.put_loop(n, iv.clone(), &f.body, f.span(), format!("{idx}let {elpat} = {amp}vp_s{n}[{iv}]; {iv} = {iv} + 1; "));
                self.cx.edit(be, be, " }");
                return;
            }
        }
        self.put_loop(n, "vp_noindex".into(), &f.body, f.span(), String::new());
    }
}

struct Gen<'u> {
    unit: &'u Unit,
    text: String,
    fns: Vec<Value>,
    drops: Vec<String>,
    lost: Vec<Value>,
    seen: HashMap<String, bool>,
    skipped: Vec<String>,
    taken: Vec<String>,
    selfmut: std::collections::HashSet<String>,
}

/// methods of an `rc` file that mutate through a RefCell, directly or through another such method
fn find_selfmut(its: &[syn::Item]) -> std::collections::HashSet<String> {
    let mut fns: Vec<(String, String, String)> = vec![];
    for it in its {
        if let syn::Item::Impl(im) = it {
            let ty = norm(&im.self_ty.to_token_stream().to_string());
            for ii in &im.items {
                if let syn::ImplItem::Fn(m) = ii {
                    let body = norm(&m.block.to_token_stream().to_string()).replace(' ', "");
                    fns.push((ty.clone(), m.sig.ident.to_string(), body));
                }
            }
        }
    }
    let mut set = std::collections::HashSet::new();
    loop {
        let n = set.len();
        for (t, f, b) in &fns {
            let hit = b.contains(".borrow_mut()") || fns.iter().any(|(t2, f2, _)| t2 == t && set.contains(&format!("{}::{}", t2, f2)) && b.contains(&format!("self.{}(", f2)));
            if hit {
                set.insert(format!("{}::{}", t, f));
            }
        }
        if set.len() == n {
            return set;
        }
    }
}

impl<'u> Gen<'u> {
    fn line(&self) -> usize {
        self.text.matches('\n').count() + 1
    }
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = norm(&a.to_token_stream().to_string());
        t.starts_with("#[test") || t.contains("cfg(test") || t.contains("cfg(kani") || t.contains("cfg(verif")
    })
}

/// textual expansion of single-arm macro_rules! without repetitions
fn expand_macros(src: &str) -> String {
    let file = match syn::parse_file(src) {
        Ok(f) => f,
        Err(_) => return src.to_string(),
    };
    let mut defs: HashMap<String, (Vec<String>, String)> = HashMap::new();
    for it in &file.items {
        if let syn::Item::Macro(m) = it {
            if let Some(id) = &m.ident {
                let body = m.mac.tokens.clone();
                let tts: Vec<proc_macro2::TokenTree> = body.into_iter().collect();
                // (pattern) => { body } ;
                if tts.len() >= 4 {
                    if let (proc_macro2::TokenTree::Group(p), proc_macro2::TokenTree::Group(b)) = (&tts[0], &tts[3]) {
                        let ptxt = p.stream().to_string();
                        if ptxt.contains("$ (") || ptxt.contains("$(") {
                            continue;
                        }
                        let params: Vec<String> = ptxt.split(',').filter_map(|x| x.trim().strip_prefix('$').map(|y| y.split(':').next().unwrap().trim().to_string())).collect();
                        let (s, e) = br(b.span());
                        defs.insert(id.to_string(), (params, src[s + 1..e - 1].to_string()));
                    }
                }
            }
        }
    }
    if defs.is_empty() {
        return src.to_string();
    }
    let mut edits: Vec<(usize, usize, String)> = vec![];
    for it in &file.items {
        if let syn::Item::Macro(m) = it {
            if m.ident.is_none() {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if let Some((params, body)) = defs.get(&n) {
                    let args: Vec<String> = m.mac.tokens.to_string().split(',').map(|x| x.trim().to_string()).collect();
                    if args.len() == params.len() {
                        let mut b = body.clone();
                        let mut pa: Vec<(&String, &String)> = params.iter().zip(args.iter()).collect();
                        pa.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
                        for (p, a) in pa {
                            b = b.replace(&format!("${}", p), a);
                        }
                        let (s, e) = br(m.span());
                        edits.push((s, e, b));
                    }
                }
            }
        }
    }
    let mut out = src.to_string();
    for (s, e, t) in edits.into_iter().rev() {
        out.replace_range(s..e, &t);
    }
    out
}

pub fn run(unit: &Unit, repo: &Path) -> Out {
    let mut g = Gen { unit, text: String::new(), fns: vec![], drops: vec![], lost: vec![], seen: HashMap::new(), skipped: vec![], taken: vec![], selfmut: Default::default() };
    g.text.push_str("#![allow(unused, non_snake_case, non_upper_case_globals, dead_code)]\n#![allow(nonstandard_style)]\n#![feature(allocator_api)]\n#![verifier::allow(autoderive_clone_without_spec)]\nuse vstd::prelude::*;\n");
    g.text.push_str(&unit.outside);
    g.text.push_str("verus!{\n");
    g.text.push_str(&unit.prelude);
    let mut errs = vec![];
    for f in &unit.files {
        let p = if let Some(rest) = f.path.strip_prefix("$AST/") {
            format!("{}/{}", std::env::var("VX_AST").unwrap_or_default(), rest)
        } else if f.path.starts_with('/') { f.path.clone() } else { repo.join(&f.path).to_string_lossy().to_string() };
        let src = match std::fs::read_to_string(&p) {
            Ok(s) => s,
            Err(e) => {
                errs.push(format!("{}: {}", p, e));
                continue;
            }
        };
        let src = expand_macros(&src);
        let file = match syn::parse_file(&src) {
            Ok(x) => x,
            Err(e) => {
                errs.push(format!("{}: parse error {}", p, e));
                continue;
            }
        };
        g.text.push_str(&format!("// ==== from {} ====\n", f.path));
        g.selfmut = if f.flags.iter().any(|x| x == "rc") { find_selfmut(&file.items) } else { Default::default() };
        // mod=NAME: a module of its own, so that Verus runs it in parallel with the others
        let module = f.flags.iter().find_map(|x| x.strip_prefix("mod="));
        if let Some(m) = module {
            g.text.push_str(&format!("pub mod {} {{ use super::*;\n{}", m, unit.modprelude));
        }
        items(&mut g, f, &src, &file.items);
        if module.is_some() {
            g.text.push_str("}\n");
        }
        // contracts whose function is gone
        for k in f.fns.keys() {
            if !g.seen.contains_key(&format!("{}#{}", f.path, k)) {
                g.lost.push(json!({"fn": k, "why": "function not found", "file": f.path}));
            }
        }
    }
    g.text.push_str(&unit.postlude);
    g.text.push_str("\n} // verus!\nfn main() {}\n");
    let map = json!({
        "fns": g.fns, "drops": dedup(g.drops), "lost": g.lost, "errors": errs, "skipped": g.skipped, "taken": g.taken, "props": unit.props,
    });
    Out { text: g.text, map }
}

fn dedup(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v.dedup();
    v
}

fn wanted(f: &FileSpec, name: &str) -> bool {
    if f.skip.iter().any(|x| x == name) {
        return false;
    }
    f.all || f.take.iter().any(|x| x == name)
}

fn items(g: &mut Gen, f: &FileSpec, src: &str, its: &[syn::Item]) {
    for it in its {
        match it {
            syn::Item::Struct(s) => {
                if !wanted(f, &s.ident.to_string()) || is_test(&s.attrs) {
                    continue;
                }
                g.taken.push(format!("struct {}", s.ident));
                let mut cx = Ctx { src, edits: vec![], drops: vec![], rc: f.flags.iter().any(|x| x == "rc") };
                adt_edits(&mut cx, &s.attrs, &s.vis);
                for fl in s.fields.iter() {
                    adt_edits(&mut cx, &fl.attrs, &fl.vis);
                    if let syn::Visibility::Inherited = fl.vis {
                        let (a, _) = br(fl.ident.as_ref().map(|i| i.span()).unwrap_or(fl.ty.span()));
                        cx.edit(a, a, "pub ");
                    }
                    ty_edits(&mut cx, &fl.ty);
                }
                let (a, b) = br(s.span());
                emit_adt(g, f, &s.ident.to_string(), cx.render(a, b));
                g.drops.extend(cx.drops);
            }
            syn::Item::Enum(s) => {
                if !wanted(f, &s.ident.to_string()) || is_test(&s.attrs) {
                    continue;
                }
                g.taken.push(format!("enum {}", s.ident));
                let mut cx = Ctx { src, edits: vec![], drops: vec![], rc: false };
                adt_edits(&mut cx, &s.attrs, &s.vis);
                for v in &s.variants {
                    for a in &v.attrs {
                        let (x, y) = br(a.span());
                        cx.edit(x, y, "");
                    }
                    for fl in v.fields.iter() {
                        for a in &fl.attrs {
                            let (x, y) = br(a.span());
                            cx.edit(x, y, "");
                        }
                    }
                }
                let (a, b) = br(s.span());
                emit_adt(g, f, &s.ident.to_string(), cx.render(a, b));
            }
            syn::Item::Const(c) => {
                if !wanted(f, &c.ident.to_string()) || is_test(&c.attrs) {
                    continue;
                }
                let mut cx = Ctx { src, edits: vec![], drops: vec![], rc: false };
                adt_edits(&mut cx, &c.attrs, &c.vis);
                if let syn::Visibility::Inherited = c.vis {
                    let (a, _) = br(c.const_token.span());
                    cx.edit(a, a, "pub ");
                }
                static_refs(&mut cx, &c.ty);
                let plain = matches!(&*c.expr, syn::Expr::Array(a) if a.elems.iter().all(|e| matches!(e, syn::Expr::Lit(_))));
                if plain {
                } else if let syn::Expr::Array(_) | syn::Expr::Reference(_) = &*c.expr {
                    let (a, _) = br(c.const_token.span());
                    cx.edit(a, a, "exec ");
                    // `pub exec const` : keep visibility first
                }
                let (a, b) = br(c.span());
                let name = c.ident.to_string();
                if let Some(fs) = f.fns.get(&name) {
                    // const with a contract: `pub exec const X: T ensures .. { proof..; EXPR }`
                    g.seen.insert(format!("{}#{}", f.path, name), true);
                    let start = g.line();
                    let (ts, te) = br(c.ty.span());
                    let (es, ee) = br(c.expr.span());
                    let t = format!("pub exec const {}: {}\nensures\n{}{{\nlet vp_c: {} = {};\n{}\nvp_c\n}}\n", name, cx.render(ts, te), fs.ensures, cx.render(ts, te), cx.render(es, ee), fs.start);
                    g.text.push_str(&t);
                    let props = fs.opts.get("props").cloned().unwrap_or_else(|| g.unit.props.clone());
                    let end = g.line() - 1;
                    g.fns.push(json!({"key": name, "file": f.path, "start": start, "sigend": start, "end": end, "external": false, "forced": false, "probed": false, "kinds": Vec::<String>::new(), "fp": "", "contract": true, "own_contract": true, "loops": 0, "calls": Vec::<String>::new(), "props": props, "lost": Vec::<String>::new(), "locals": Vec::<String>::new()}));
                    continue;
                }
                let t = cx.render(a, b).replace("exec pub ", "pub exec ");
                g.text.push_str(&t);
                g.text.push('\n');
            }
            syn::Item::Type(c) => {
                if !wanted(f, &c.ident.to_string()) {
                    continue;
                }
                let mut cx = Ctx { src, edits: vec![], drops: vec![], rc: false };
                adt_edits(&mut cx, &c.attrs, &c.vis);
                let (a, b) = br(c.span());
                let t = cx.render(a, b);
                g.text.push_str(&t);
                g.text.push('\n');
            }
            syn::Item::Mod(m) => {
                if is_test(&m.attrs) {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    if wanted(f, &m.ident.to_string()) {
                        items(g, f, src, its);
                    }
                }
            }
            syn::Item::Fn(x) => {
                let name = x.sig.ident.to_string();
                if is_test(&x.attrs) || !wanted(f, &name) {
                    continue;
                }
                let rc = f.flags.iter().any(|x| x == "rc");
                emit_fn(g, f, src, &x.attrs, Some(&x.vis), &x.sig, Some(&x.block), &name, None, false, rc);
            }
            syn::Item::Trait(t) => {
                let name = t.ident.to_string();
                if !wanted(f, &name) {
                    continue;
                }
                let (bs, be) = (br(t.brace_token.span.open()).0, br(t.brace_token.span.close()).1);
                let hs = br(t.trait_token.span()).0;
                let sized = if t.supertraits.is_empty() && t.items.iter().any(|x| matches!(x, syn::TraitItem::Fn(m) if norm(&m.sig.output.to_token_stream().to_string()).contains("Self"))) { ": Sized " } else { "" };
                g.text.push_str(&format!("pub {}{} {{\n", &src[hs..bs], sized));
                let _ = be;
                if let Some(x) = f.implextra.get(&format!("trait {}", name)) {
                    g.text.push_str(x);
                }
                for ti in &t.items {
                    if let syn::TraitItem::Fn(m) = ti {
                        emit_fn(g, f, src, &m.attrs, None, &m.sig, m.default.as_ref(), &format!("{}::{}", name, m.sig.ident), None, false, false);
                    }
                }
                g.text.push_str("}\n");
            }
            syn::Item::Impl(im) => {
                if is_test(&im.attrs) {
                    continue;
                }
                let ty = norm(&im.self_ty.to_token_stream().to_string());
                let tr = im.trait_.as_ref().map(|(_, p, _)| norm(&p.to_token_stream().to_string()));
                let header = match &tr {
                    Some(t) => format!("{} for {}", t, ty),
                    None => ty.clone(),
                };
                let tyname = ty.split('<').next().unwrap().to_string();
                let impl_wanted = if tr.is_some() {
                    // trait impls: std::fmt & Error never; others by `take`/all
                    let t = tr.clone().unwrap();
                    let b = t.rsplit("::").next().unwrap().to_string();
                    !(b == "Debug" || b == "Display" || b == "Error") && !f.skip.iter().any(|x| *x == header.replace(' ', "_")) && (f.all || f.take.iter().any(|x| *x == header.replace(' ', "_")))
                } else {
                    f.all && !f.skip.iter().any(|x| *x == format!("impl_{}", ty)) || f.take.iter().any(|x| x.starts_with(&format!("{}::", tyname)))
                };
                if !impl_wanted {
                    g.skipped.push(format!("impl {}", header));
                    continue;
                }
                let hs = br(im.impl_token.span()).0;
                let bs = br(im.brace_token.span.open()).0;
                g.text.push_str(&format!("{} {{\n", src[hs..bs].trim_end()));
                if let Some(x) = f.implextra.get(&header) {
                    if !g.seen.contains_key(&format!("extra {}", header)) {
                        g.text.push_str(x);
                        g.seen.insert(format!("extra {}", header), true);
                    }
                }
                for ii in &im.items {
                    match ii {
                        syn::ImplItem::Const(c) => {
                            let n = format!("{}::{}", tyname, c.ident);
                            if !f.skip.contains(&n) && (tr.is_some() || f.all || f.take.contains(&n) || f.take.contains(&format!("{}::*const", tyname))) {
                                let mut cx = Ctx { src, edits: vec![], drops: vec![], rc: false };
                                adt_edits(&mut cx, &c.attrs, &c.vis);
                                if let syn::Visibility::Inherited = c.vis {
                                    if tr.is_none() {
                                        let (a, _) = br(c.const_token.span());
                                        cx.edit(a, a, "pub ");
                                    }
                                }
                                let (a, b) = br(c.span());
                                let t = cx.render(a, b);
                                g.text.push_str(&t);
                                g.text.push('\n');
                            }
                        }
                        syn::ImplItem::Type(t) => {
                            let (a, b) = br(t.span());
                            g.text.push_str(&src[a..b]);
                            g.text.push('\n');
                        }
                        syn::ImplItem::Fn(m) => {
                            if is_test(&m.attrs) {
                                continue;
                            }
                            let key = match &tr {
                                Some(t) => format!("<{} for {}>::{}", t, ty, m.sig.ident).replace(' ', "_"),
                                None => format!("{}::{}", tyname, m.sig.ident),
                            };
                            if f.skip.contains(&key) || !(f.all || f.take.contains(&key) || tr.is_some()) {
                                if !f.take.iter().any(|x| *x == format!("{}::*", tyname)) {
                                    g.skipped.push(key);
                                    continue;
                                }
                            }
                            let rc = f.flags.iter().any(|x| x == "rc");
                            emit_fn(g, f, src, &m.attrs, Some(&m.vis), &m.sig, Some(&m.block), &key, Some(&tyname), tr.is_some(), rc);
                        }
                        _ => {}
                    }
                }
                g.text.push_str("}\n");
            }
            _ => {}
        }
    }
}

fn adt_edits(cx: &mut Ctx, attrs: &[syn::Attribute], vis: &syn::Visibility) {
    for a in attrs {
        let (x, y) = br(a.span());
        cx.edit(x, y, "");
    }
    match vis {
        syn::Visibility::Inherited => {}
        v => {
            let (x, y) = br(v.span());
            cx.edit(x, y, "pub");
        }
    }
}
fn static_refs(cx: &mut Ctx, ty: &syn::Type) {
    if let syn::Type::Reference(r) = ty {
        if r.lifetime.is_none() {
            let (_, e) = br(r.and_token.span());
            cx.edit(e, e, "'static ");
        }
        static_refs(cx, &r.elem);
    }
    if let syn::Type::Slice(s) = ty {
        static_refs(cx, &s.elem);
    }
    if let syn::Type::Array(s) = ty {
        static_refs(cx, &s.elem);
    }
    if let syn::Type::Tuple(t) = ty {
        for x in &t.elems {
            static_refs(cx, x);
        }
    }
}
fn ty_edits(cx: &mut Ctx, ty: &syn::Type) {
    if cx.rc {
        let t = norm(&ty.to_token_stream().to_string());
        if let Some(x) = t.strip_prefix("Rc<RefCell<") {
            let inner = x.strip_suffix(">>").unwrap_or(x).to_string();
            let (a, b) = br(ty.span());
            cx.edit(a, b, inner);
            cx.drops.push("Rc<RefCell<T>> -> T (dynamic borrow flags and sharing between clones dropped)".into());
        }
    }
}
fn emit_adt(g: &mut Gen, f: &FileSpec, name: &str, text: String) {
    let text = text.trim().to_string();
    let text = if text.starts_with("pub") { text } else { format!("pub {}", text) };
    if let Some(d) = f.derives.get(name) {
        if let Some(at) = d.strip_prefix('#') {
            g.text.push_str(&format!("#{}\n", at));
        } else {
            g.text.push_str(&format!("#[derive({})]\n", d));
        }
    }
    g.text.push_str(&text);
    g.text.push('\n');
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(g: &mut Gen, f: &FileSpec, src: &str, _attrs: &[syn::Attribute], vis: Option<&syn::Visibility>, sig: &syn::Signature, block: Option<&syn::Block>, key: &str, ty: Option<&str>, in_trait_impl: bool, rc: bool) {
    g.seen.insert(format!("{}#{}", f.path, key), true);
    let fs = f.fns.get(key);
    let mode = fs.and_then(|x| x.opts.get("mode").cloned()).unwrap_or_default();
    if mode == "drop" {
        g.skipped.push(key.to_string());
        return;
    }
    let mut cx = Ctx { src, edits: vec![], drops: vec![], rc };
    // --- signature
    let mut mut_self = false;
    let mut has_self = false;
    for a in &sig.inputs {
        if let syn::FnArg::Receiver(r) = a {
            has_self = true;
            mut_self = r.mutability.is_some() && r.reference.is_some();
            if (fs.map(|x| x.opts.contains_key("selfmut")).unwrap_or(false) || g.selfmut.contains(key)) && !mut_self {
                let (x, y) = br(r.span());
                cx.edit(x, y, "&mut self");
                cx.drops.push("&self -> &mut self where interior mutability was removed".into());
                mut_self = true;
            }
        }
    }
    let retname = "r";
    if let syn::ReturnType::Type(_, t) = &sig.output {
        let (a, b) = br(t.span());
        let tt = cx.render(a, b);
        cx.edit(a, b, format!("({}: {})", retname, tt));
    }
    let (ss, se) = br(sig.span());
    let sigtext = cx.render(ss, se);
    // --- contract
    let dkey = ty.map(|t| format!("{} {}", t, if !has_self { "static" } else if mut_self { "mut" } else { "ref" }));
    let (mut req, mut ens) = match fs {
        Some(x) => (x.requires.clone(), x.ensures.clone()),
        None => (String::new(), String::new()),
    };
    let has_contract = fs.is_some();
    let nodefault = fs.map(|x| x.opts.contains_key("nodefault")).unwrap_or(false);
    let mut used_default = false;
    if !in_trait_impl && !nodefault {
        if let Some((r, e)) = dkey.and_then(|k| g.unit.defaults.get(&k)) {
            req = format!("{}{}", r, req);
            ens = format!("{}{}", e, ens);
            used_default = true;
        }
    }
    // --- body
    let mut body = String::new();
    let mut nloops = 0;
    let mut calls = vec![];
    let mut lost = vec![];
    let mut locals: Vec<String> = vec![];
    let forced = std::env::var("VX_EXTERNAL").unwrap_or_default().split(',').any(|k| k == key);
    let imported = f.flags.iter().any(|x| x == "imported");
    let external = mode == "external" || forced || imported;
    let probe = !external && block.is_some() && std::env::var("VX_PROBE").map(|v| v == "1").unwrap_or(false);
    let (kinds, fp) = block.map(fingerprint).unwrap_or_default();
    let default_loop = ty.and_then(|t| g.unit.default_loop.get(&format!("{} {}", t, if mut_self { "mut" } else { "ref" })).cloned());
    if let Some(b) = block {
        let (bs, be) = br(b.span());
        for a in &sig.inputs {
            if let syn::FnArg::Typed(t) = a {
                if let syn::Pat::Ident(p) = &*t.pat {
                    locals.push(p.ident.to_string());
                }
            }
        }
        if external {
            body = "{ unimplemented!() }".into();
        } else {
            if probe {
                cx.edit(bs + 1, bs + 1, " proof { assert(false); }\n".to_string());
            }
            if let Some(x) = fs {
                if !x.start.is_empty() {
                    cx.edit(bs + 1, bs + 1, format!("\n{}\n", x.start));
                }
            }
            let mut v = BodyVisitor { cx: &mut cx, fs, default_loop, loop_n: 0, loops: vec![], locals: vec![], calls: vec![] };
            v.visit_block(b);
            nloops = v.loop_n;
            calls = v.calls.clone();
            locals.extend(v.locals.clone());
            let _ = v.loops.iter().map(|l| (l.ordinal, l.ivar.clone())).collect::<Vec<_>>();
            body = cx.render(bs, be);
            if let Some(x) = fs {
                for (a, bt) in &x.rewrites {
                    let mut from = 0;
                    let mut hit = false;
                    while let Some((s, e)) = ws_find(&body, a, from) {
                        body.replace_range(s..e, bt);
                        from = s + bt.len();
                        hit = true;
                    }
                    if !hit {
                        lost.push(format!("rewrite pattern not found: {}", a));
                    } else {
                        cx.drops.push(format!("rewrite in {}: `{}` ==> `{}`", key, a, bt));
                    }
                }
                for (anchor, before, t) in &x.hints {
                    let mut from = 0;
                    let mut hit = false;
                    while let Some((s, e)) = ws_find(&body, anchor, from) {
                        let line = body[..s].rfind('\n').map(|i| i + 1).unwrap_or(0);
                        if body[line..s].contains("//") {
                            // inside a comment
                            from = e;
                            continue;
                        }
                        let at = if *before { s } else { e };
                        body.insert_str(at, &format!("\n{}\n", t));
                        from = e + t.len() + 2;
                        hit = true;
                    }
                    if !hit {
                        lost.push(format!("hint anchor not found: {}", anchor));
                    }
                }
                let maxl = x.loops.keys().map(|k| k + 1).max().unwrap_or(0);
                let expect = x.opts.get("loops").and_then(|s| s.parse::<usize>().ok()).unwrap_or(maxl);
                if nloops != expect {
                    lost.push(format!("expected {} loops, found {}", expect, nloops));
                }
            }
        }
    }
    // local renaming
    let mut ren: Vec<(String, String)> = vec![];
    if let Some(x) = fs {
        if !x.locals.is_empty() {
            for (i, b) in x.locals.iter().enumerate() {
                if locals.contains(b) {
                    ren.push((b.clone(), b.clone()));
                } else if x.locals.len() == locals.len() {
                    ren.push((b.clone(), locals[i].clone()));
                } else {
                    lost.push(format!("local {} not found", b));
                    ren.push((b.clone(), b.clone()));
                }
            }
        }
    }
    ren.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
    let fixn = |s: &str| {
        let mut s = s.to_string();
        for (a, b) in &ren {
            s = replace_word(&s, &format!("${}", a), b);
        }
        s
    };
    let body = fixn(&body);
    let start = g.line();
    if let Some(x) = fs {
        if !x.attr.is_empty() {
            g.text.push_str(&fixn(&x.attr));
        }
    }
    if imported { lost.clear(); }
    if external && block.is_some() {
        g.text.push_str("#[verifier::external_body]\n");
    } else if block.is_some() {
        let explicit_term = fs.map(|x| x.opts.contains_key("terminates")).unwrap_or(false);
        if !explicit_term {
            g.text.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
        }
        if !fs.map(|x| x.opts.contains_key("isolate")).unwrap_or(false) {
            g.text.push_str("#[verifier::loop_isolation(false)]\n");
        }
    }
    if vis.is_some() && !in_trait_impl {
        g.text.push_str("pub ");
    }
    g.text.push_str(&sigtext);
    g.text.push('\n');
    if !req.trim().is_empty() {
        g.text.push_str("requires\n");
        g.text.push_str(&fixn(&req));
    }
    if !ens.trim().is_empty() {
        g.text.push_str("ensures\n");
        g.text.push_str(&fixn(&ens));
    }
    if let Some(x) = fs {
        if !x.decreases.trim().is_empty() {
            g.text.push_str("decreases\n");
            g.text.push_str(&fixn(&x.decreases));
        }
    }
    let sigend = g.line();
    if block.is_some() {
        g.text.push_str(&body);
    } else {
        g.text.push(';');
    }
    g.text.push('\n');
    let end = g.line() - 1;
    let props = fs.and_then(|x| x.opts.get("props").cloned()).unwrap_or_else(|| g.unit.props.clone());
    g.fns.push(json!({"key": key, "file": f.path, "start": start, "sigend": sigend, "end": end, "external": external, "imported": imported && mode != "external", "forced": forced, "probed": probe, "kinds": kinds, "fp": fp, "contract": has_contract || used_default, "own_contract": has_contract,
        "loops": nloops, "calls": dedup(calls), "props": props, "lost": lost, "locals": locals}));
    if !lost.is_empty() {
        g.lost.push(json!({"fn": key, "why": lost}));
    }
    g.drops.extend(cx.drops);
}

fn replace_word(t: &str, a: &str, b: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(p) = rest.find(a) {
        let e = p + a.len();
        out.push_str(&rest[..p]);
        let next = rest[e..].chars().next();
        if next.map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false) { out.push_str(a); } else { out.push_str(b); }
        rest = &rest[e..];
    }
    out.push_str(rest);
    out
}
