use crate::gen::*;
use lib_ruby_parser::source::*;
use lib_ruby_parser::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

pub trait Prop: Send + Sync {
    fn check(&self, input: &[u8]) -> Result<(), String>;
    fn on_panic(&self, loc: &str, msg: &str) -> Result<(), String> { Err(format!("panicked at {}: {}", loc, msg)) }
    fn exhaustive(&self, _cx: &Ctx, _depth: usize, _f: &mut dyn FnMut(Vec<u8>)) {}
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8>;
    fn known_class(&self, _what: &str) -> Option<String> { None }
    fn hang_is_violation(&self) -> bool { false }
    fn show(&self, b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }
    fn bound(&self, depth: usize) -> String;
}
pub fn get(id: &str) -> Box<dyn Prop> {
    match id {
        "C01" => Box::new(C01),
        "C02" => Box::new(C02),
        "C03" => Box::new(C03),
        "C04" => Box::new(C04),
        "C11" => Box::new(C11),
        x => crate::props2::get(x),
    }
}
fn text(r: &mut Rng, cx: &Ctx) -> Vec<u8> {
    let mut v = vec![];
    let n = r.below(40);
    for _ in 0..n {
        match r.below(10) {
            0..=3 => v.push(b'\n'),
            4 => v.push(b'\r'),
            5 => v.push(r.below(256) as u8),
            6 => { let k = count(r, cx, 20); let b = *r.pick(BYTES); v.extend(std::iter::repeat(b).take(k)) }
            7 => v.extend(r.pick(&cx.dict)),
            _ => v.push(*r.pick(BYTES)),
        }
    }
    v
}
const EXH: &[&[u8]] = &[b"a", b"\n", b"\r", b"\xc3", b"\xa9", b"\0", b" "];

// oracle: start offset of every line (line k+1 starts after the k-th \n)
fn starts(b: &[u8]) -> Vec<usize> {
    let mut v = vec![0];
    for i in 0..b.len() { if b[i] == 10 { v.push(i + 1) } }
    v
}
fn decoded(b: &[u8]) -> DecodedInput {
    let mut d = DecodedInput::named("x");
    // a previous population must not leak into the new one
    d.update_bytes(b"q\nw\n\ne".to_vec());
    d.update_bytes(b.to_vec());
    d
}

struct C01;
impl Prop for C01 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        let one = |bytes: &[u8], lines: &[SourceLine], who: &str| -> Result<(), String> {
            if bytes != b { return Err(format!("{}: bytes changed", who)) }
            let st = starts(b);
            if lines.len() != st.len() { return Err(format!("{}: {} lines, expected {}", who, lines.len(), st.len())) }
            for (i, l) in lines.iter().enumerate() {
                let end = if i + 1 < st.len() { st[i + 1] } else { b.len() };
                if l.start != st[i] || l.end != end || l.ends_with_eof != (i + 1 == st.len()) { return Err(format!("{}: line {} is {:?}, expected {}..{}", who, i, l, st[i], end)) }
            }
            Ok(())
        };
        let d = decoded(b);
        one(&d.bytes, &d.lines, "DecodedInput")?;
        if d.as_shared_bytes() != b { return Err("as_shared_bytes differs".into()) }
        let mut i = Input::new("x", None);
        i.update_bytes(b.to_vec());
        if i.as_shared_bytes() != b { return Err("Input::as_shared_bytes differs".into()) }
        if i.into_bytes() != b || d.into_bytes() != b { return Err("into_bytes differs".into()) }
        Ok(())
    }
    fn exhaustive(&self, _: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) { product(EXH, 6 + depth, f) }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> { text(r, cx) }
    fn bound(&self, d: usize) -> String { format!("all texts of at most {} bytes over 7 representative bytes, plus random texts", 6 + d) }
}
struct C02;
impl Prop for C02 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        let d = decoded(b);
        let mut i = Input::new("x", None);
        i.update_bytes(b.to_vec());
        let st = starts(b);
        let mut ps: Vec<usize> = (0..=b.len() + 3).collect();
        ps.extend([usize::MAX, usize::MAX / 2, 1 << 31, 1 << 32, b.len() + 255, b.len() + 256, b.len() * 2 + 1]);
        let mut seen = BTreeSet::new();
        for p in ps {
            let exp = if p > b.len() { None } else { let l = st.iter().rposition(|s| *s <= p).unwrap(); Some((l, p - st[l])) };
            for (who, got) in [("DecodedInput", d.line_col_for_pos(p)), ("Input", i.line_col_for_pos(p)), ("Loc::begin_line_col", Loc { begin: p, end: p }.begin_line_col(&d))] {
                if got != exp { return Err(format!("{}: position {} of {} maps to {:?}, expected {:?}", who, p, b.len(), got, exp)) }
            }
            if let Some(x) = exp { if !seen.insert(x) { return Err(format!("two positions map to {:?}", x)) } }
        }
        Ok(())
    }
    fn exhaustive(&self, _: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) { product(EXH, 5 + depth, f) }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> { text(r, cx) }
    fn bound(&self, d: usize) -> String { format!("all texts of at most {} bytes over 7 representative bytes, plus random texts; every position up to 3 past the end and 7 far positions", 5 + d) }
}
struct C03;
impl Prop for C03 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        let d = decoded(b);
        let st = starts(b);
        let n = b.len();
        for p in (0..n + 3).chain([usize::MAX, n + 256]) {
            let exp = if p > n { None } else {
                let l = st.iter().rposition(|s| *s <= p).unwrap();
                let e = if l + 1 < st.len() { st[l + 1] - 1 } else { n };
                Some((l, Loc { begin: st[l], end: e }))
            };
            for end in [p, n, 0, usize::MAX] {
                let got = Loc { begin: p, end }.expand_to_line(&d);
                if got != exp { return Err(format!("expand_to_line of {}..{} is {:?}, expected {:?}", p, end, got, exp)) }
            }
        }
        let step = if n > 24 { n / 24 } else { 1 };
        let mut qs: Vec<usize> = (0..n + 3).step_by(step).collect();
        qs.extend([n, n + 1, usize::MAX]);
        for x in &qs {
            for y in &qs {
                let exp = if *x <= *y && *y <= n { Some(String::from_utf8_lossy(&b[*x..*y]).into_owned()) } else { None };
                let got = Loc { begin: *x, end: *y }.source(&d);
                if got != exp { return Err(format!("source of {}..{} is {:?}, expected {:?}", x, y, got, exp)) }
            }
        }
        Ok(())
    }
    fn exhaustive(&self, _: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) { product(EXH, 5 + depth, f) }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> { text(r, cx) }
    fn bound(&self, d: usize) -> String { format!("all texts of at most {} bytes over 7 representative bytes, plus random texts; all ranges", 5 + d) }
}

// ---- C04: first byte selects the decoder, second the comment shape, then NAME \x01 REST
struct C04;
const ENCS: &[&str] = &["utf-8", "UTF-8", "Utf-8", "ascii-8bit", "ASCII-8BIT", "binary", "BINARY", "Binary", "bINARY", "koi8-r", "us-ascii", "UTF-16", "utf8", "utf-8-mac", "utf_8", "ascii-8", "ascii8bit", "binar", "binaryx", "utf-", "utf-88", "x", "shift_jis", "euc-jp", "iso-8859-1", "cp1251", "UTF-8-UNIX", "-", "locale", "external", "us-ASCII", "ASCII", "utf-7", "UTF-32LE", "windows-1252", "emacs-mule"];
fn c04_src(b: &[u8]) -> Option<(u8, String, Vec<u8>)> {
    if b.len() < 2 { return None }
    let i = b[2..].iter().position(|x| *x == 1)? + 2;
    let name = String::from_utf8(b[2..i].to_vec()).ok()?;
    if name.is_empty() || !name.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'_') { return None }
    let rest = &b[i + 1..];
    let first = match b[1] % 5 {
        0 => format!("# encoding: {}\n", name),
        1 => format!("# -*- coding: {} -*-\n", name),
        2 => format!("#!ruby\n# coding: {}\n", name),
        3 => format!("# encoding: \"{}\"\n", name),
        _ => format!("  # encoding:   {}  \n", name),
    };
    let mut v = first.into_bytes();
    v.extend_from_slice(rest);
    Some((b[0] % 7, name, v))
}
impl Prop for C04 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        let Some((mode, name, src)) = c04_src(b) else { return Ok(()) };
        if name.len() < 2 { return Ok(()) }
        let builtin = ["utf-8", "ascii-8bit", "binary"].contains(&name.to_lowercase().as_str());
        let calls: Rc<RefCell<Vec<(String, Vec<u8>)>>> = Rc::new(RefCell::new(vec![]));
        let out: Option<Vec<u8>> = match mode {
            0 | 1 => None,
            2 => Some(src.clone()),
            3 => Some(b"a\nb".to_vec()),
            4 => { let mut v = src.clone(); v.splice(0..0, b"   ".to_vec()); v.extend(b"\nfoo\n"); Some(v) }
            5 => Some(vec![]),
            _ => Some(src.iter().map(|c| if *c >= 0x80 { b'?' } else { *c }).collect()),
        };
        let decoder = if mode == 0 { None } else {
            let (calls, out) = (calls.clone(), out.clone());
            Some(Decoder::new(Box::new(move |e, i| {
                calls.borrow_mut().push((e, i));
                match &out { Some(o) => DecoderResult::Ok(o.clone()), None => DecoderResult::Err(InputError::DecodingError("nope-xyz".into())) }
            })))
        };
        let r = Parser::new(src.clone(), ParserOptions { buffer_name: "b".into(), decoder, record_tokens: true }).do_parse();
        let enc_err = r.diagnostics.iter().any(|d| matches!(d.message, DiagnosticMessage::EncodingError { .. }));
        let got = &r.input.bytes;
        let st = starts(got);
        for (i, l) in r.input.lines.iter().enumerate() {
            if l.start != st.get(i).copied().unwrap_or(usize::MAX) { return Err("line index does not match the input bytes".into()) }
        }
        if r.input.lines.len() != st.len() { return Err("line index does not match the input bytes".into()) }
        // the decoded text may itself contain another encoding comment: only the first call is predicted then
        if builtin {
            if mode != 0 && !calls.borrow().is_empty() && !src[9..].windows(6).skip(8).any(|w| w == b"coding") { return Err(format!("decoder was called for {}", name)) }
            if *got != src && calls.borrow().is_empty() { return Err("input bytes changed without decoding".into()) }
            if calls.borrow().is_empty() && enc_err && !src[9..].windows(6).skip(8).any(|w| w == b"coding") { return Err(format!("encoding error for {}", name)) }
            return Ok(());
        }
        if mode == 0 {
            if !enc_err { return Err(format!("no encoding error for unsupported {}", name)) }
            if *got != src { return Err("input bytes were lost".into()) }
            let want = format!("{:?}", InputError::UnsupportedEncoding(name.clone()));
            if !r.diagnostics.iter().any(|d| matches!(&d.message, DiagnosticMessage::EncodingError { error } if *error == want)) { return Err(format!("error is not {}", want)) }
            return Ok(());
        }
        let calls = calls.borrow();
        if calls.is_empty() { return Err(format!("decoder was not called for {}", name)) }
        if calls[0].0 != name { return Err(format!("decoder was called with encoding {:?}, expected {:?}", calls[0].0, name)) }
        if calls[0].1 != src { return Err("decoder was called with different bytes".into()) }
        match out {
            Some(o) => { if *got != o { return Err("result input is not what the decoder returned".into()) } }
            None => {
                if !r.diagnostics.iter().any(|d| matches!(&d.message, DiagnosticMessage::EncodingError { error } if error.contains("nope-xyz"))) { return Err("decoder error is not reported".into()) }
                if *got != src { return Err("input bytes were lost after a decoding error".into()) }
            }
        }
        Ok(())
    }
    fn on_panic(&self, loc: &str, msg: &str) -> Result<(), String> { if loc.contains("/source/") { Err(format!("panicked at {}: {}", loc, msg)) } else { Ok(()) } }
    fn exhaustive(&self, _: &Ctx, _: usize, f: &mut dyn FnMut(Vec<u8>)) {
        for e in ENCS { for mode in 0..7u8 { for shape in 0..5u8 { for rest in ["", "a", "a\nb = \"\\n\"\n", "\u{e9} = 1\n", "\n\n# x\n", "foo(1)\nbar\n"] {
            let mut v = vec![mode, shape];
            v.extend(e.as_bytes());
            v.push(1);
            v.extend(rest.as_bytes());
            f(v)
        } } } }
    }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> {
        let mut v = vec![r.below(7) as u8, r.below(5) as u8];
        let mut e = r.pick(ENCS).as_bytes().to_vec();
        if r.one_in(3) { for c in e.iter_mut() { if r.one_in(2) { *c = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() } } } }
        if r.one_in(5) { e = (0..2 + r.below(9)).map(|_| *r.pick(b"abUTF-8_ASCI16binary")).collect() }
        if r.one_in(6) { let d: Vec<u8> = r.pick(&cx.dict).iter().copied().filter(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_').collect(); if !d.is_empty() { e = d } }
        v.extend(e);
        v.push(1);
        let mut t = if r.one_in(2) { text(r, cx) } else { soup(r, cx, 4) };
        if r.one_in(2) { t = t.into_iter().filter(|c| *c != 1).collect() }
        v.extend(t);
        v
    }
    fn show(&self, b: &[u8]) -> String { match c04_src(b) { Some((m, n, s)) => format!("decoder mode {}, encoding {}, source {:?}", m, n, String::from_utf8_lossy(&s)), None => "-".into() } }
    fn bound(&self, _: usize) -> String { format!("{} encoding names x 7 decoders x 5 comment shapes x 6 bodies, plus random ones", ENCS.len()) }
}

// ---- C11: operation sequences against a stack-of-sets model.
// The input is split at 0xff; a piece is an operation (\0 static, \1 dynamic, \2 close) or a name to declare.
struct C11;
const NAMES: &[&str] = &["a", "b", "foo", "", "A", "é", "FORWARD_ARGS", "ANONYMOUS_BLOCKARG", "_", "_1", "a ", "it", "self", "_a", "a?", "日本", "aa"];
impl Prop for C11 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        let ops: Vec<&[u8]> = b.split(|c| *c == 0xff).collect();
        let mut names: BTreeSet<String> = NAMES.iter().map(|s| s.to_string()).collect();
        for o in &ops { if let Ok(s) = std::str::from_utf8(o) { names.insert(s.to_string()); } }
        let env = StaticEnvironment::new();
        let alias = env.clone();
        let mut cur: BTreeSet<String> = BTreeSet::new();
        let mut st: Vec<BTreeSet<String>> = vec![];
        for (k, o) in ops.iter().enumerate() {
            let e = if k % 2 == 0 { &env } else { &alias };
            match o {
                [0] => { e.extend_static(); st.push(std::mem::take(&mut cur)) }
                [1] => { e.extend_dynamic(); st.push(cur.clone()) }
                [2] => { if let Some(p) = st.pop() { e.unextend(); cur = p } }
                o => if let Ok(s) = std::str::from_utf8(o) { e.declare(s); cur.insert(s.to_string()); }
            }
            for n in &names {
                if env.is_declared(n) != cur.contains(n) || alias.is_declared(n) != cur.contains(n) { return Err(format!("after op {}: is_declared({:?}) is {}, expected {}", k, n, env.is_declared(n), cur.contains(n))) }
            }
        }
        if ops.len() > 1 && ops.len() % 4 == 0 {
            // scopes as seen by the lexer: a name declared up-front is a local variable
            let n = ["a", "b", "foo"][ops.len() / 4 % 3];
            let p = Parser::new(format!("{}\n{} {{ {} }}\ndef m; {}; end\nclass X; {}; end\n", n, "qq", n, n, n).into_bytes(), ParserOptions::default());
            p.static_env.declare(n);
            let r = p.do_parse();
            let d = format!("{:?}", r.ast);
            let lv = d.matches("Lvar(").count();
            let sd = d.matches(&format!("method_name: \"{}\"", n)).count();
            if lv != 2 || sd != 2 { return Err(format!("pre-declared local {}: {} lvars and {} sends, expected 2 and 2", n, lv, sd)) }
        }
        Ok(())
    }
    fn on_panic(&self, loc: &str, msg: &str) -> Result<(), String> { if loc.contains("static_environment") { Err(format!("panicked at {}: {}", loc, msg)) } else { Ok(()) } }
    fn exhaustive(&self, _: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) { product(&[b"\0\xff", b"\x01\xff", b"\x02\xff", b"a\xff", b"b\xff", b"FORWARD_ARGS\xff"], 6 + depth, f) }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> {
        let n = if r.one_in(8) { count(r, cx, 200) } else { r.below(24) };
        let mut v = vec![];
        let pool: Vec<Vec<u8>> = (0..4).map(|_| if r.one_in(2) { r.pick(&cx.dict).clone() } else { r.pick(NAMES).as_bytes().to_vec() }).collect();
        for _ in 0..n { if r.one_in(2) { v.push(r.below(3) as u8) } else { v.extend(r.pick(&pool)) } v.push(0xff) }
        v
    }
    fn show(&self, b: &[u8]) -> String { b.split(|c| *c == 0xff).map(|o| match o { [0] => "extend_static".into(), [1] => "extend_dynamic".into(), [2] => "unextend".into(), n => format!("declare({:?})", String::from_utf8_lossy(n)) }).collect::<Vec<String>>().join("; ") }
    fn bound(&self, d: usize) -> String { format!("all operation sequences of length at most {} over 6 operations, plus random ones up to 1100 operations with names taken from a pool and from the sources", 6 + d) }
}
