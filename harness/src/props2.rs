//! executable forms of the tokenizer properties (C05-C10, C13-C15)
use crate::gen::*;
use crate::props::Prop;
use lib_ruby_parser::lex_states::*;
use lib_ruby_parser::source::*;
use lib_ruby_parser::*;

pub fn get(id: &str) -> Box<dyn Prop> {
    match id {
        "C05" => Box::new(C05),
        "C06" => Box::new(C06),
        "C07" => Box::new(C07),
        "C08" => Box::new(C08),
        "C09" => Box::new(C09),
        "C10" => Box::new(C10),
        "C13" => Box::new(C13),
        "C14" => Box::new(C14),
        "C15" => Box::new(C15),
        x => panic!("unknown property {}", x),
    }
}
fn parse(b: &[u8]) -> ParserResult { Parser::new(b.to_vec(), ParserOptions { buffer_name: "x".into(), decoder: None, record_tokens: true }).do_parse() }
fn errors(r: &ParserResult) -> Vec<&Diagnostic> { r.diagnostics.iter().filter(|d| d.is_error()).collect() }
const LEXFILES: &[&str] = &["/lexer/", "/source/", "token_buf.rs", "maybe_byte.rs", "str_term.rs", "lex_state.rs", "loc_ext.rs", "stack_state.rs", "context.rs", "/reserved_words/"];
fn lexer_panic(loc: &str) -> bool { let f = loc.split(':').next().unwrap_or(""); f.contains("repo") && LEXFILES.iter().any(|x| f.contains(x)) || f.starts_with("src/") && LEXFILES.iter().any(|x| f.contains(x)) }

// ------------------------------------------------------------------ C05
struct C05;
const STATES: &[i32] = &[EXPR_BEG, EXPR_END, EXPR_ENDARG, EXPR_ENDFN, EXPR_ARG, EXPR_CMDARG, EXPR_MID, EXPR_FNAME, EXPR_DOT, EXPR_CLASS, EXPR_BEG | EXPR_LABEL, EXPR_END | EXPR_LABEL, EXPR_ARG | EXPR_LABELED, EXPR_FNAME | EXPR_FITEM, EXPR_VALUE];
const LEXSEED: &[&[u8]] = &[b"a", b"1", b" ", b"\n", b"\"", b"'", b"#", b"\\", b"<<A", b"<<~A", b"<<-'A'", b"A\n", b"?", b"%w[", b"%", b"/", b"@", b"$", b":", b"=begin", b"\n=end", b"{", b"}", b"\xc3", b"\xa9", b"\xff", b"\0", b"\r", b"_", b"e", b".", b"-", b"&", b"`", b"__END__", b"u{", b"x", b"M-", b"C-", b"0", b"\xef\xbb\xbf", b"=", b"(", b")", b"encoding: x"];
impl Prop for C05 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        // the parser drives the lexer through the states the grammar can put it in; a panic of the grammar itself is not this property
        let r = std::panic::catch_unwind(|| { parse(b); });
        if r.is_err() {
            let (loc, msg) = crate::PANIC.with(|x| x.borrow_mut().take()).unwrap_or_default();
            if lexer_panic(&loc) || loc.contains("/core/src") || loc.contains("/alloc/src") { return Err(format!("parse: panicked at {}: {}", loc, msg)) }
        }
        let h = b.iter().fold(b.len(), |a, c| a.wrapping_mul(31).wrapping_add(*c as usize));
        for k in 0..3 {
            let mut l = Lexer::new(b.to_vec(), "x", None);
            if k > 0 { l.lex_state.set(STATES[(h / (k * 7)) % STATES.len()]) }
            l.tokenize_until_eof();
        }
        Ok(())
    }
    fn on_panic(&self, loc: &str, msg: &str) -> Result<(), String> { Err(format!("tokenize: panicked at {}: {}", loc, msg)) }
    fn exhaustive(&self, cx: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) {
        product(LEXSEED, 3 + (depth > 1) as usize, f);
        for c in &cx.corpus { for i in 0..c.len().min(400) { f(c[..i].to_vec()) } }
    }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> { any_ruby(r, cx) }
    fn bound(&self, d: usize) -> String { format!("all concatenations of at most {} of {} fragments, every truncation of the corpus, random programs; parsed, and tokenized from 3 start states", 3 + (d > 1) as usize, LEXSEED.len()) }
    fn hang_is_violation(&self) -> bool { true }
}
fn any_ruby(r: &mut Rng, cx: &Ctx) -> Vec<u8> {
    match r.below(6) {
        0 => { let n = r.below(12); let mut v = vec![]; for _ in 0..n { v.extend(*r.pick(LEXSEED)) } v }
        1 => literal(r, cx),
        2 => heredocs(r, cx),
        _ => ruby(r, cx),
    }
}
/// some (possibly unterminated) literal with an odd body
fn literal(r: &mut Rng, cx: &Ctx) -> Vec<u8> {
    let (o, c) = *r.pick(&[("\"", "\""), ("'", "'"), ("`", "`"), ("/", "/x"), ("%w[", "]"), ("%W(", ")"), ("%q<", ">"), ("%Q{", "}"), ("%i|", "|"), ("%I!", "!"), ("%r(", ")"), ("%s(", ")"), ("%x[", "]"), (":\"", "\""), (":'", "'"), ("?", ""), ("{\"", "\": 1}"), ("%(", ")"), ("%\n", "\n"), ("% ", " ")]);
    let mut v = vec![];
    if r.one_in(3) { v.extend(b"a = ") }
    v.extend(o.as_bytes());
    let n = r.below(8);
    for _ in 0..n {
        match r.below(5) {
            0 => v.push(*r.pick(BYTES)),
            1 => v.extend(r.pick(FRAGS).as_bytes()),
            _ => { v.extend(*r.pick(ESC)) }
        }
    }
    if !r.one_in(4) { v.extend(c.as_bytes()) }
    if r.one_in(2) { v.extend(soup(r, cx, 3)) }
    v
}
const ESC: &[&[u8]] = &[b"\\n", b"\\t", b"\\0", b"\\1", b"\\12", b"\\101", b"\\377", b"\\400", b"\\777", b"\\8", b"\\9", b"\\x4", b"\\x41", b"\\xfF", b"\\x", b"\\u0041", b"\\u00e9", b"\\u20ac", b"\\uD800", b"\\u123", b"\\u{41}", b"\\u{41 42}", b"\\u{ 41  42 }", b"\\u{10ffff}", b"\\u{110000}", b"\\u{}", b"\\u{41", b"\\u{zz}", b"\\u{1234567}", b"\\M-a", b"\\C-a", b"\\ca", b"\\c?", b"\\C-?", b"\\M-\\C-a", b"\\C-\\M-a", b"\\M-\\ca", b"\\M-\\n", b"\\C-\\n", b"\\c\\101", b"\\M-\\x41", b"\\M-?", b"\\M", b"\\C", b"\\c", b"\\M-", b"\\\n", b"\\a", b"\\b", b"\\e", b"\\f", b"\\r", b"\\s", b"\\v", b"\\\\", b"\\\"", b"\\'", b"\\#", b"\\\xc3\xa9", b"\xc3\xa9", b"a", b"z", b"0", b" ", b"#", b"{", b"}", b"\n", b"\\`", b"\\/", b"\\(", b"\\)", b"\\q", b"\\-", b"\\\xff", b"\\\0", b"\\ ", b"7", b"f", b"(", b")", b"[", b"]", b"\\]", b"\\>", b"\\}", b"\\!", b"\\|", b"\\u", b"\\N", b"\\U", b"\\X41", b"\\c\xc3\xa9", b"\\M-\xc3\xa9", b"\\M-\\u0041", b"\\c\\u0041", b"\\M-\\M-a", b"\\c\\ca", b"@", b"$", b"\\@"];
fn heredocs(r: &mut Rng, cx: &Ctx) -> Vec<u8> {
    let mut v = vec![];
    if r.one_in(8) { v.extend(b"\xef\xbb\xbf") }
    let n = 1 + r.below(2);
    let ids = ["A", "B", "é", "A B", "", "EOS_1"];
    let mut used = vec![];
    if r.one_in(3) { v.extend(b"foo ") }
    for k in 0..n {
        if k > 0 { v.extend(b", ") }
        let id = *r.pick(&ids);
        let q = *r.pick(&["", "'", "\"", "`"]);
        v.extend(b"<<"); v.extend(r.pick(&["", "-", "~"]).as_bytes()); v.extend(q.as_bytes()); v.extend(id.as_bytes());
        if !r.one_in(12) { v.extend(q.as_bytes()) }
        used.push(id);
    }
    if r.one_in(3) { v.extend(soup(r, cx, 2)) }
    let nl: &[u8] = if r.one_in(4) { b"\r\n" } else { b"\n" };
    v.extend(nl);
    for id in used {
        for _ in 0..r.below(4) {
            v.extend(*r.pick(&[&b""[..], b"  ", b"\t", b"    ", b" \t", b"\t ", b"      \t"]));
            match r.below(8) { 0 => v.extend(id.as_bytes()), 1 => v.extend(*r.pick(ESC)), 2 => v.extend(b"#{a}"), 3 => v.extend(b"#{<<C}\nx\nC\n"), 4 => v.extend(b"x\\"), 5 => v.extend(r.pick(FRAGS).as_bytes()), 6 => { v.extend(id.as_bytes()); v.push(b' ') } _ => v.extend(b"x y") }
            v.extend(nl);
        }
        if r.one_in(3) { v.extend(b"  ") }
        if !r.one_in(5) { v.extend(id.as_bytes()); if !r.one_in(5) { v.extend(nl) } }
    }
    if r.one_in(2) { v.extend(soup(r, cx, 3)) }
    v
}

// ------------------------------------------------------------------ C06
struct C06;
impl Prop for C06 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        let r = parse(b);
        let n = r.input.as_shared_bytes().len();
        let chk = |l: &Loc, w: String| if l.begin <= l.end && l.end <= n { Ok(()) } else { Err(format!("{} has range {}..{} in an input of {} bytes", w, l.begin, l.end, n)) };
        for t in &r.tokens { chk(&t.loc, format!("token {:?}", t))? }
        for c in &r.comments { chk(&c.location, format!("{:?}", c.kind))? }
        for m in &r.magic_comments { chk(&m.key_l, format!("key of {:?}", m.kind))?; chk(&m.value_l, format!("value of {:?}", m.kind))? }
        for d in &r.diagnostics { chk(&d.loc, format!("diagnostic {:?}", d.message))? }
        for t in Lexer::new(b.to_vec(), "x", None).tokenize_until_eof() { chk(&t.loc, format!("(lexer only) token {:?}", t))? }
        Ok(())
    }
    fn on_panic(&self, _: &str, _: &str) -> Result<(), String> { Ok(()) }
    fn exhaustive(&self, cx: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) {
        product(LEXSEED, 3 + (depth > 1) as usize, f);
        for c in &cx.corpus { for i in 0..c.len().min(400) { f(c[..i].to_vec()) } }
    }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> { any_ruby(r, cx) }
    fn bound(&self, d: usize) -> String { C05.bound(d) }
}

// ------------------------------------------------------------------ C07: first byte selects the delimiters, the rest is the body
struct C07;
const DELIMS: &[(&str, &str, bool)] = &[("\"", "\"", true), ("'", "'", false), ("%q(", ")", false), ("%Q[", "]", true), ("%(", ")", true), ("%q!", "!", false), ("%{", "}", true), ("`", "`", true), (":\"", "\"", true), ("%q<", ">", false), ("?", "", true), (":'", "'", false), ("%x|", "|", true), ("<<A\n", "\nA\n", true), ("<<'A'\n", "\nA\n", false), ("%w[", "]", false), ("%W(", ")", true), ("%i(", ")", false), ("%I{", "}", true), ("<<-A\n", "\n A\n", true)];
fn utf8(c: u32) -> Option<Vec<u8>> { char::from_u32(c).map(|c| { let mut b = [0; 4]; c.encode_utf8(&mut b).as_bytes().to_vec() }) }
fn hexv(c: u8) -> Option<u32> { (c as char).to_digit(16) }
/// value of the escape at s[i..] (after the backslash) for control/meta; returns (value, next index)
fn cm(s: &[u8], i: usize, meta: bool, ctrl: bool) -> Option<(u32, usize)> {
    let c = *s.get(i)?;
    Some(match c {
        b'n' => (10, i + 1), b't' => (9, i + 1), b'r' => (13, i + 1), b'f' => (12, i + 1), b'v' => (11, i + 1), b'a' => (7, i + 1), b'e' => (27, i + 1), b'b' => (8, i + 1), b's' => (32, i + 1), b'\\' => (92, i + 1),
        b'0'..=b'7' => { let mut v = 0; let mut j = i; while j < s.len() && j < i + 3 && (b'0'..=b'7').contains(&s[j]) { v = v * 8 + (s[j] - b'0') as u32; j += 1 } (v & 255, j) }
        b'x' => { let mut v = 0; let mut j = i + 1; while j < s.len() && j < i + 3 { match hexv(s[j]) { Some(d) => v = v * 16 + d, None => break } j += 1 } if j == i + 1 { return None } (v, j) }
        b'M' => {
            if meta || s.get(i + 1) != Some(&b'-') { return None }
            let d = *s.get(i + 2)?;
            if d == b'\\' { if s.get(i + 3) == Some(&b'U') { return None } let (v, j) = cm(s, i + 3, true, ctrl)?; (v | 128, j) } else if d > 32 && d < 127 { (d as u32 | 128, i + 3) } else { return None }
        }
        b'C' | b'c' => {
            if ctrl { return None }
            let k = if c == b'C' { if s.get(i + 1) != Some(&b'-') { return None } i + 2 } else { i + 1 };
            let d = *s.get(k)?;
            if d == b'?' { (127, k + 1) } else if d == b'\\' { if s.get(k + 1) == Some(&b'U') { return None } let (v, j) = cm(s, k + 1, meta, true)?; (v & 0x9f, j) } else if d > 32 && d < 127 { (d as u32 & 0x9f, k + 1) } else { return None }
        }
        b'u' => return None,
        33..=126 => (c as u32, i + 1),
        _ => return None,
    })
}
/// what the body stands for; None: malformed, interpolated, or not decided here
fn decode(s: &[u8], o: u8, c: u8, interp: bool, here: bool, words: bool) -> Option<Vec<u8>> {
    let mut v = vec![];
    let (mut i, mut nest) = (0, 0);
    while i < s.len() {
        let b = s[i];
        if b == b'\r' || b == 0 || b == 4 || b == 26 { return None }
        if words && (b == 32 || (9..=13).contains(&b)) { return None }
        if b == b'\\' && !(here && !interp) {
            i += 1;
            let e = *s.get(i)?;
            if e == b'\r' { return None }
            if words && e == b'\n' { v.push(e); i += 1; continue }
            if words && !interp && (e == 32 || (9..=13).contains(&e)) { v.push(e); i += 1; continue }
            if !interp {
                if e == b'\\' || e == o || e == c { v.push(e) } else { v.push(b'\\'); v.push(e) }
                i += 1;
                continue;
            }
            match e {
                b'\n' => i += 1,
                b'u' => {
                    if s.get(i + 1) == Some(&b'{') {
                        let end = s[i..].iter().position(|x| *x == b'}')? + i;
                        let t = std::str::from_utf8(&s[i + 2..end]).ok()?;
                        if t.contains('\n') { return None }
                        let ws: Vec<&str> = t.split([' ', '\t']).filter(|x| !x.is_empty()).collect();
                        if ws.is_empty() { return None }
                        for w in ws { if w.len() > 6 || !w.bytes().all(|x| x.is_ascii_hexdigit()) { return None } v.extend(utf8(u32::from_str_radix(w, 16).ok()?)?) }
                        i = end + 1;
                    } else {
                        let h = s.get(i + 1..i + 5)?;
                        let mut n = 0;
                        for x in h { n = n * 16 + hexv(*x)? }
                        v.extend(utf8(n)?);
                        i += 5;
                    }
                }
                0x80..=0xff => { let n = clen(&s[i..])?; v.extend(&s[i..i + n]); i += n }
                // a backslash in front of a delimiter stands for the delimiter, whatever it is
                _ if e == c || e == o => { v.push(e); i += 1 }
                0..=32 | 127 => { if e == 0 || e == 4 || e == 26 { return None } v.push(e); i += 1 }
                _ => { let (x, j) = cm(s, i, false, false)?; v.push(x as u8); i = j }
            }
            continue;
        }
        if interp && b == b'#' && matches!(s.get(i + 1), Some(b'{') | Some(b'@') | Some(b'$')) { return None }
        if !here { if b == c && nest == 0 { return None } if b == o && o != c { nest += 1 } else if b == c { nest -= 1 } }
        let n = if b >= 128 { clen(&s[i..])? } else { 1 };
        v.extend(&s[i..i + n]);
        i += n;
    }
    if nest != 0 { return None }
    Some(v)
}
/// length of the well-formed UTF-8 char at the start
fn clen(s: &[u8]) -> Option<usize> { for n in 1..=4.min(s.len()) { if std::str::from_utf8(&s[..n]).is_ok() { return Some(n) } } None }
fn cat(n: &Node, out: &mut Vec<Option<u8>>) {
    match n {
        Node::Str(x) => out.extend(x.value.as_raw().iter().map(|b| Some(*b))),
        Node::Sym(x) => out.extend(x.name.as_raw().iter().map(|b| Some(*b))),
        Node::Dstr(x) => x.parts.iter().for_each(|p| cat(p, out)),
        Node::Dsym(x) => x.parts.iter().for_each(|p| cat(p, out)),
        Node::Xstr(x) => x.parts.iter().for_each(|p| cat(p, out)),
        Node::Heredoc(x) => x.parts.iter().for_each(|p| cat(p, out)),
        Node::XHeredoc(x) => x.parts.iter().for_each(|p| cat(p, out)),
        Node::Array(x) => x.elements.iter().for_each(|p| cat(p, out)),
        _ => out.push(None),
    }
}
fn text_of(n: &Node) -> Vec<Option<u8>> { let mut v = vec![]; cat(n, &mut v); v }
fn lossy(v: &[Option<u8>]) -> String { String::from_utf8_lossy(&v.iter().flat_map(|x| match x { Some(b) => vec![*b], None => b"#{..}".to_vec() }).collect::<Vec<_>>()).into_owned() }
fn some(v: &[u8]) -> Vec<Option<u8>> { v.iter().map(|x| Some(*x)).collect() }
fn c07_src(b: &[u8]) -> Option<(usize, &[u8], Vec<u8>)> {
    let d = *b.first()? as usize % DELIMS.len();
    let mut s = DELIMS[d].0.as_bytes().to_vec();
    s.extend(&b[1..]);
    s.extend(DELIMS[d].1.as_bytes());
    Some((d, &b[1..], s))
}
impl Prop for C07 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        let Some((d, body, src)) = c07_src(b) else { return Ok(()) };
        let (o, c, interp) = DELIMS[d];
        let here = o.starts_with("<<");
        let words = o.starts_with("%w") || o.starts_with("%W") || o.starts_with("%i") || o.starts_with("%I");
        let exp = if o == "?" {
            if body.first() == Some(&b'\\') { if matches!(body.get(1), Some(b'\n') | None) { None } else if body.get(1..3) == Some(b"u{") && body.iter().any(|x| *x == b' ' || *x == b'\t') { None } else { decode(body, 0, 0, true, true, false) } }
            else if body.len() == 1 && body[0] > 32 && body[0] < 127 || body.first().map_or(false, |x| *x >= 128) { decode(body, 0, 0, true, true, false) } else { None }
        } else {
            if here && body.split(|x| *x == b'\n').any(|l| l == b"A" || (o.starts_with("<<-") && l.ends_with(b"A"))) { return Ok(()) }
            decode(body, if here { 0 } else { o.as_bytes()[o.len() - 1] }, if here { 0 } else { c.as_bytes()[0] }, interp, here, words)
        };
        let Some(mut exp) = exp else { return Ok(()) };
        if o == "?" {
            // one character
            let one = std::str::from_utf8(&exp).map_or(exp.len() == 1, |x| x.chars().count() == 1);
            let esc1 = body[0] != b'\\' || body[1] >= 128 || body.len() == 2 || { let (x, e) = cm(body, 1, false, false).unwrap_or((0, 0)); let _ = x; e == body.len() || body[1] == b'u' };
            if !one || !esc1 { return Ok(()) }
        }
        if here {
            if body.last() == Some(&b'\\') && interp { return Ok(()) }
            exp.push(b'\n');
        }
        if (o.starts_with(':') || o.starts_with("%i") || o.starts_with("%I")) && (std::str::from_utf8(&exp).is_err()) { return Ok(()) }
        let r = parse(&src);
        if let Some(e) = errors(&r).first() {
            // text that is not valid UTF-8 may be rejected for other reasons
            return Err(format!("well-formed literal {:?} is rejected: {}", String::from_utf8_lossy(&src), e.render_message()));
        }
        let Some(ast) = &r.ast else { return Err("no syntax tree".into()) };
        let got = text_of(ast);
        if got != some(&exp) { return Err(format!("literal {:?} reads as {:?}, expected {:?}", String::from_utf8_lossy(&src), lossy(&got), String::from_utf8_lossy(&exp))) }
        Ok(())
    }
    fn on_panic(&self, _: &str, _: &str) -> Result<(), String> { Ok(()) }
    fn exhaustive(&self, _: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) {
        for d in 0..DELIMS.len() as u8 {
            product(ESC, 2, &mut |v| { let mut x = vec![d]; x.extend(v); f(x) });
            if d == 10 { continue }
            for a in 1..=255u8 { for p in [&b"\\"[..], b"\\M-", b"\\C-", b"\\c", b"\\M-\\C-", b"\\C-\\M-", b"\\M-\\", b"\\c\\", b""] { let mut x = vec![d]; x.extend(p); x.push(a); f(x.clone()); x.push(b'z'); f(x) } }
        }
        for d in [0u8, 10] {
            for n in 0..512u32 { f([&[d][..], format!("\\{:o}", n).as_bytes()].concat()); f([&[d][..], format!("\\{:03o}", n).as_bytes()].concat()) }
            for n in 0..256u32 { f([&[d][..], format!("\\x{:x}", n).as_bytes()].concat()); f([&[d][..], format!("\\x{:02X}9", n).as_bytes()].concat()) }
            let top = if depth > 0 { 0x110000u32 } else { 0x3000 };
            for n in 0..top { if n < 0x10000 { f([&[d][..], format!("\\u{:04x}", n).as_bytes()].concat()) } if n < 0x900 || depth > 0 { f([&[d][..], format!("\\u{{{:x}}}", n).as_bytes()].concat()) } }
            for n in [0x3000u32, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10001, 0x1f600, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x110000] { f([&[d][..], format!("\\u{{{:x}}}", n).as_bytes()].concat()); f([&[d][..], format!("\\u{{ {:06X}  41\t}}q", n).as_bytes()].concat()); if n < 0x10000 { f([&[d][..], format!("\\u{:04X}", n).as_bytes()].concat()) } }
        }
    }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> {
        let mut v = vec![r.below(DELIMS.len()) as u8];
        let k = if v[0] == 10 { 1 } else { 1 + r.below(7) };
        for _ in 0..k {
            match r.below(9) {
                0 => v.push(*r.pick(BYTES)),
                1 => { v.push(b'\\'); v.push(r.below(256) as u8) }
                2 => v.extend(format!("\\u{{{:x} {:x}}}", r.below(0x110000), r.below(0x3000)).bytes()),
                3 => v.extend(format!("\\u{:04x}", r.below(0x10000)).bytes()),
                4 if r.one_in(3) => v.extend(r.pick(&cx.dict)),
                4 => { let n = count(r, cx, 9); let f = *r.pick(ESC); if f.len() * n < 900 { for _ in 0..n { v.extend(f) } } }
                _ => v.extend(*r.pick(ESC)),
            }
        }
        v
    }
    fn show(&self, b: &[u8]) -> String { c07_src(b).map(|x| String::from_utf8_lossy(&x.2).into_owned()).unwrap_or_default() }
    fn bound(&self, d: usize) -> String { format!("{} kinds of delimiters with all bodies of at most 2 of {} fragments, every byte after every escape prefix, every octal and hex escape, \\u up to {}, plus random bodies", DELIMS.len(), ESC.len(), if d > 0 { "10ffff" } else { "3000" }) }
}

// ------------------------------------------------------------------ C08
struct C08;
fn digits(s: &[u8], i: usize, ok: fn(u8) -> bool) -> Option<usize> {
    // D (_? D)*
    if !s.get(i).map_or(false, |c| ok(*c)) { return None }
    let mut j = i + 1;
    loop {
        if s.get(j).map_or(false, |c| ok(*c)) { j += 1 }
        else if s.get(j) == Some(&b'_') && s.get(j + 1).map_or(false, |c| ok(*c)) { j += 2 }
        else { return Some(j) }
    }
}
/// kind of a complete numeric literal (without sign), None when it is not one
fn number_kind(s: &[u8]) -> Option<&'static str> {
    let dec: fn(u8) -> bool = |c| c.is_ascii_digit();
    let oct: fn(u8) -> bool = |c| (b'0'..=b'7').contains(&c);
    let (j, float, exp) = if s.len() > 1 && s[0] == b'0' && s[1].is_ascii_alphabetic() && !matches!(s[1], b'r' | b'i' | b'e' | b'E') {
        let ok: fn(u8) -> bool = match s[1] { b'x' | b'X' => |c| c.is_ascii_hexdigit(), b'b' | b'B' => |c| c == b'0' || c == b'1', b'd' | b'D' => dec, b'o' | b'O' => oct, _ => return None };
        (digits(s, 2, ok)?, false, false)
    } else if s.len() > 1 && s[0] == b'0' && (s[1].is_ascii_digit() || s[1] == b'_') {
        (digits(s, if s[1] == b'_' { 2 } else { 1 }, oct)?, false, false)
    } else {
        let mut j = digits(s, 0, dec)?;
        let (mut f, mut e) = (false, false);
        if s.get(j) == Some(&b'.') { j = digits(s, j + 1, dec)?; f = true }
        if matches!(s.get(j), Some(b'e') | Some(b'E')) { let k = if matches!(s.get(j + 1), Some(b'+') | Some(b'-')) { j + 2 } else { j + 1 }; j = digits(s, k, dec)?; f = true; e = true }
        (j, f, e)
    };
    match &s[j..] {
        b"" => Some(if float { "tFLOAT" } else { "tINTEGER" }),
        b"r" if !exp => Some("tRATIONAL"),
        b"i" => Some("tIMAGINARY"),
        b"ri" if !exp => Some("tIMAGINARY"),
        _ => None,
    }
}
const NUMS: &[&[u8]] = &[b"0", b"1", b"7", b"8", b"9", b"_", b".", b"e", b"E", b"+", b"-", b"x", b"b", b"o", b"d", b"r", b"i", b"f", b"X", b"B"];
impl Prop for C08 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        let (sign, lit) = match b.first() { Some(b'-') => (1, &b[1..]), Some(b'+') => (2, &b[1..]), _ => (0, b) };
        let r = parse(b);
        let kind = number_kind(lit);
        let err = errors(&r);
        let isnum = |t: &&Token| matches!(t.token_name(), "tINTEGER" | "tFLOAT" | "tRATIONAL" | "tIMAGINARY");
        if let Some(k) = kind {
            if let Some(e) = err.first() { return Err(format!("valid literal is rejected: {}", e.render_message())) }
            let ts: Vec<&Token> = r.tokens.iter().filter(isnum).collect();
            let want: &[u8] = if sign == 1 { lit } else { b };
            if ts.len() != 1 || ts[0].token_name() != k || ts[0].as_bytes() != want || ts[0].loc.end != b.len() || ts[0].loc.begin != b.len() - want.len() { return Err(format!("expected one {} {:?}, got {:?}", k, String::from_utf8_lossy(want), r.tokens)) }
        }
        if err.is_empty() {
            let bytes = r.input.as_shared_bytes();
            for t in r.tokens.iter().filter(isnum) {
                if bytes.get(t.loc.begin..t.loc.end) != Some(&t.as_bytes()[..]) { return Err(format!("{:?} is not the text at its location", t)) }
                let s = t.as_bytes();
                let s = if matches!(s.first(), Some(b'+') | Some(b'-')) { &s[1..] } else { &s[..] };
                if number_kind(s) != Some(t.token_name()) { return Err(format!("{:?} does not denote a {}", t, t.token_name())) }
                if let Some(c) = bytes.get(t.loc.end) { if (c.is_ascii_digit() || *c == b'_' && !s.ends_with(b"i") && !s.ends_with(b"r")) && bytes.get(t.loc.end).map_or(false, |c| c.is_ascii_digit()) { return Err(format!("{:?} ends in the middle of a literal", t)) } }
            }
        }
        Ok(())
    }
    fn on_panic(&self, _: &str, _: &str) -> Result<(), String> { Ok(()) }
    fn exhaustive(&self, _: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) {
        product(NUMS, 4 + (depth > 0) as usize, f);
        product(&[b"0", b"1", b"_", b".", b"e", b"r", b"i"], 6 + (depth > 0) as usize, f);
        for a in ["1", "0x1f", "0b10", "0o17", "017", "0d9", "1.5", "1e5", "1r", "1i", "0", "1_0", "0_7", "1.5e-3", "1.5r", "2ri"] {
            for c in 0..=255u8 { for d in [&b""[..], b"a", b"0", b"_"] { let mut v = a.as_bytes().to_vec(); v.push(c); v.extend(d); f(v.clone()); v.insert(0, b'-'); f(v.clone()); v[0] = b'+'; f(v) } }
        }
    }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> {
        let mut v = vec![];
        if r.one_in(4) { v.extend(*r.pick(&[&b"a = "[..], b"[", b"f ", b"x ", b"(", b"a-", b"a -", b"a.b(", b"a[", b"\xc3\xa9 = "])) }
        if r.one_in(4) { v.push(*r.pick(b"+-")) }
        let pre = *r.pick(&["", "", "", "0x", "0b", "0o", "0d", "0", "0_"]);
        v.extend(pre.as_bytes());
        let ds: &[u8] = match pre { "0x" => b"0123456789abcdefABCDEF", "0b" => b"01", "0o" | "0" | "0_" => b"01234567", _ => b"0123456789" };
        let run = |v: &mut Vec<u8>, r: &mut Rng| { let n = 1 + count(r, cx, 9) % 90; for k in 0..n { v.push(*r.pick(ds)); if k + 1 < n && r.one_in(6) { v.push(b'_') } } };
        run(&mut v, r);
        if pre.is_empty() && r.one_in(2) { v.push(b'.'); run(&mut v, r) }
        if pre.is_empty() && r.one_in(3) { v.push(*r.pick(b"eE")); if r.one_in(2) { v.push(*r.pick(b"+-")) } run(&mut v, r) }
        if r.one_in(2) { v.extend(*r.pick(&[&b"r"[..], b"i", b"ri", b"ir", b"rr"])) }
        if r.one_in(4) { v.extend(r.pick(FRAGS).as_bytes()) }
        if r.one_in(4) { v = mutate(r, cx, &v) }
        v
    }
    fn bound(&self, d: usize) -> String { format!("all texts of at most {} of 20 numeric fragments and {} of 7, 16 literals followed by every byte, plus random literals in random positions", 4 + (d > 0) as usize, 6 + (d > 0) as usize) }
}

// ------------------------------------------------------------------ C09
struct C09;
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c >= 128 }
const KEYWORDS: &[&str] = &["__ENCODING__", "__LINE__", "__FILE__", "BEGIN", "END", "alias", "and", "begin", "break", "case", "class", "def", "defined?", "do", "else", "elsif", "end", "ensure", "false", "for", "if", "in", "module", "next", "nil", "not", "or", "redo", "rescue", "retry", "return", "self", "super", "then", "true", "undef", "unless", "until", "when", "while", "yield"];
fn ident_start(c: u8) -> bool { c.is_ascii_alphabetic() || c == b'_' || c >= 128 }
fn upper(s: &[u8]) -> bool { s[0].is_ascii_uppercase() }
/// (kind, value) of a text that is one name
fn name_kind(s: &[u8]) -> Option<(&'static str, Vec<u8>)> {
    std::str::from_utf8(s).ok()?;
    if s.starts_with(b"\xef\xbb\xbf") { return None }
    let body = |t: &[u8]| !t.is_empty() && ident_start(t[0]) && t.iter().all(|c| idc(*c));
    match *s.first()? {
        b'@' => { let (k, t) = if s.get(1) == Some(&b'@') { ("tCVAR", &s[2..]) } else { ("tIVAR", &s[1..]) }; if body(t) { Some((k, s.to_vec())) } else { None } }
        b'$' => {
            let t = &s[1..];
            if body(t) || t.len() == 1 && b"~*$?!@/\\;,.=:<>\"".contains(&t[0]) || t.len() == 2 && t[0] == b'-' && idc(t[1]) && t[1] < 128 { return Some(("tGVAR", s.to_vec())) }
            if t.len() == 1 && b"&`'+".contains(&t[0]) { return Some(("tBACK_REF", s.to_vec())) }
            if !t.is_empty() && t[0] != b'0' && t.iter().all(|c| c.is_ascii_digit()) && t.len() < 9 { return Some(("tNTH_REF", s.to_vec())) }
            if t.len() >= 1 && t[0] == b'0' && t.iter().all(|c| idc(*c)) { return Some(("tGVAR", s.to_vec())) }
            None
        }
        c if ident_start(c) => {
            let last = *s.last().unwrap();
            if s == b"__END__" || KEYWORDS.iter().any(|k| k.as_bytes() == s) { return None }
            if (last == b'?' || last == b'!') && s.len() > 1 { return if body(&s[..s.len() - 1]) { Some(("tFID", s.to_vec())) } else { None } }
            if body(s) { Some((if upper(s) { "tCONSTANT" } else if s[0] >= 128 && std::str::from_utf8(s).unwrap().chars().next().unwrap().is_uppercase() { return None } else { "tIDENTIFIER" }, s.to_vec())) } else { None }
        }
        _ => None,
    }
}
impl Prop for C09 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        if let Some((k, v)) = name_kind(b) {
            for (pre, post) in [("", ""), ("", "\n"), ("x = ", "\n"), ("p(", ")"), ("[", "]"), ("a.b(", ", 1)"), ("(", " )"), ("!", ";")] {
                if k == "tFID" && pre == "!" { continue }
                let src = [pre.as_bytes(), b, post.as_bytes()].concat();
                let r = parse(&src);
                let t = r.tokens.iter().find(|t| t.loc.begin == pre.len());
                match t {
                    Some(t) if t.token_name() == k && *t.as_bytes() == v && t.loc.end == pre.len() + b.len() => {}
                    _ => return Err(format!("in {:?}: expected {} {:?} at {}, got {:?}", String::from_utf8_lossy(&src), k, String::from_utf8_lossy(&v), pre.len(), r.tokens)),
                }
            }
            if matches!(k, "tIDENTIFIER" | "tCONSTANT" | "tFID") {
                let at = |src: Vec<u8>, off: usize, kinds: &[&str], val: &[u8], len: usize| -> Result<(), String> {
                    let r = parse(&src);
                    match r.tokens.iter().find(|t| t.loc.begin == off) {
                        Some(t) if kinds.contains(&t.token_name()) && t.as_bytes() == val && t.loc.end == off + len => Ok(()),
                        _ => Err(format!("in {:?}: expected {:?} {:?} at {}, got {:?}", String::from_utf8_lossy(&src), kinds, String::from_utf8_lossy(val), off, r.tokens)),
                    }
                };
                at([&b"{"[..], b, b": 1}"].concat(), 1, &["tLABEL"], b, b.len() + 1)?;
                at([&b"f "[..], b, b": 1"].concat(), 2, &["tLABEL"], b, b.len() + 1)?;
                at([&b"def "[..], b, b"; end"].concat(), 4, &[k], b, b.len())?;
                at([&b"a."[..], b, b"()"].concat(), 2, &[k], b, b.len())?;
                at([&b"a&."[..], b, b"\n"].concat(), 3, &[k], b, b.len())?;
                at([&b":"[..], b].concat(), 1, &[k], b, b.len())?;
                if k != "tFID" {
                    let eq = [b, b"="].concat();
                    at([&b"def "[..], b, b"=(v); end"].concat(), 4, &["tIDENTIFIER", "tCONSTANT"], &eq, eq.len())?;
                    at([&b":"[..], b, b"=\n"].concat(), 1, &["tIDENTIFIER", "tCONSTANT"], &eq, eq.len())?;
                    at([b, b" = 1"].concat(), 0, &[k], b, b.len())?;
                    at([b, b"=1"].concat(), 0, &[k], b, b.len())?;
                    at([b, b"==1"].concat(), 0, &[k], b, b.len())?;
                    at([b, b"!=1"].concat(), 0, &[k], b, b.len())?;
                }
            }
        }
        let r = parse(b);
        if errors(&r).is_empty() {
            let bytes = r.input.as_shared_bytes();
            for t in &r.tokens {
                let n = t.token_name();
                if !matches!(n, "tIDENTIFIER" | "tCONSTANT" | "tFID" | "tIVAR" | "tCVAR" | "tGVAR" | "tLABEL" | "tNTH_REF" | "tBACK_REF") { continue }
                let end = if n == "tLABEL" { t.loc.end.wrapping_sub(1) } else { t.loc.end };
                if bytes.get(t.loc.begin..end) != Some(&t.as_bytes()[..]) { return Err(format!("{:?} is not the text at its location", t)) }
                if n == "tLABEL" && bytes.get(end) != Some(&b':') { return Err(format!("label {:?} is not followed by a colon", t)) }
                let v = t.as_bytes();
                if matches!(n, "tIDENTIFIER" | "tCONSTANT" | "tIVAR" | "tCVAR") || n == "tGVAR" && v.len() > 1 && (ident_start(v[1]) || v[1] == b'0') {
                    if v.last().map_or(false, |c| idc(*c)) { if let Some(c) = bytes.get(end) { if idc(*c) { return Err(format!("{:?} stops in the middle of a name", t)) } } }
                }
                if n == "tNTH_REF" && bytes.get(end).map_or(false, |c| c.is_ascii_digit()) { return Err(format!("{:?} stops in the middle of a number", t)) }
            }
        }
        Ok(())
    }
    fn on_panic(&self, _: &str, _: &str) -> Result<(), String> { Ok(()) }
    fn exhaustive(&self, _: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) {
        product(&[b"a", b"Z", b"_", b"9", b"0", b"\xc3\xa9", b"\xe6\x97\xa5", b"\xf0\x9f\x98\x80", b"@", b"$", b"?", b"!", b"=", b":", b"-"], 3 + (depth > 0) as usize, f);
        for p in ["", "@", "@@", "$", "$-", "a", "A", "_", "@a", "$a", "a9"] { for c in 0..=255u8 { let mut v = p.as_bytes().to_vec(); v.push(c); f(v.clone()); v.push(b'q'); f(v) } }
        for k in KEYWORDS { for p in ["", "@", "$", "@@", "_", "x"] { for s in ["", "_", "x", "1", "?", "!", "é", "="] { f(format!("{}{}{}", p, k, s).into_bytes()) } for i in 0..k.len() { f(format!("{}{}", p, &k[..i]).into_bytes()) } } }
        for n in 1..70 { for p in ["", "@", "@@", "$", "A"] { f(format!("{}{}", p, "a".repeat(n)).into_bytes()); f(format!("{}a{}", p, "é".repeat(n)).into_bytes()) } if n < 9 { f(format!("${}", "1".repeat(n)).into_bytes()) } }
    }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> {
        if r.one_in(3) { return ruby(r, cx) }
        let mut v = r.pick(&["", "@", "@@", "$", "$-", "", ""]).as_bytes().to_vec();
        let n = 1 + count(r, cx, 12) % 300;
        for _ in 0..n { v.extend(*r.pick(&[&b"a"[..], b"b", b"Z", b"_", b"9", b"0", b"\xc3\xa9", b"\xe6\x97\xa5", b"\xf0\x9f\x98\x80", b"x", b"e"])) }
        if r.one_in(4) { v.extend(*r.pick(&[&b"?"[..], b"!", b"=", b":", b"::", b"?:"])) }
        if r.one_in(6) { v.extend(r.pick(FRAGS).as_bytes()) }
        v
    }
    fn bound(&self, d: usize) -> String { format!("all texts of at most {} of 15 fragments, every byte after 11 prefixes, every keyword with 8 suffixes and all its prefixes, names up to 70 characters; each in 22 positions; plus random names and programs", 3 + (d > 0) as usize) }
}

// ------------------------------------------------------------------ C10
struct C10;
fn kw_row(k: &str) -> (i32, i32, i32) {
    let b = EXPR_BEG; let v = EXPR_VALUE; let e = EXPR_END; let a = EXPR_ARG; let m = EXPR_MID; let f = EXPR_FNAME;
    match k {
        "__ENCODING__" => (Lexer::k__ENCODING__, Lexer::k__ENCODING__, e), "__LINE__" => (Lexer::k__LINE__, Lexer::k__LINE__, e), "__FILE__" => (Lexer::k__FILE__, Lexer::k__FILE__, e),
        "BEGIN" => (Lexer::klBEGIN, Lexer::klBEGIN, e), "END" => (Lexer::klEND, Lexer::klEND, e),
        "alias" => (Lexer::kALIAS, Lexer::kALIAS, f | EXPR_FITEM), "and" => (Lexer::kAND, Lexer::kAND, v), "begin" => (Lexer::kBEGIN, Lexer::kBEGIN, b), "break" => (Lexer::kBREAK, Lexer::kBREAK, m),
        "case" => (Lexer::kCASE, Lexer::kCASE, v), "class" => (Lexer::kCLASS, Lexer::kCLASS, EXPR_CLASS), "def" => (Lexer::kDEF, Lexer::kDEF, f), "defined?" => (Lexer::kDEFINED, Lexer::kDEFINED, a), "do" => (Lexer::kDO, Lexer::kDO, b),
        "else" => (Lexer::kELSE, Lexer::kELSE, b), "elsif" => (Lexer::kELSIF, Lexer::kELSIF, v), "end" => (Lexer::kEND, Lexer::kEND, e), "ensure" => (Lexer::kENSURE, Lexer::kENSURE, b), "false" => (Lexer::kFALSE, Lexer::kFALSE, e), "for" => (Lexer::kFOR, Lexer::kFOR, v),
        "if" => (Lexer::kIF, Lexer::kIF_MOD, v), "in" => (Lexer::kIN, Lexer::kIN, v), "module" => (Lexer::kMODULE, Lexer::kMODULE, v), "next" => (Lexer::kNEXT, Lexer::kNEXT, m), "nil" => (Lexer::kNIL, Lexer::kNIL, e), "not" => (Lexer::kNOT, Lexer::kNOT, a), "or" => (Lexer::kOR, Lexer::kOR, v),
        "redo" => (Lexer::kREDO, Lexer::kREDO, e), "rescue" => (Lexer::kRESCUE, Lexer::kRESCUE_MOD, m), "retry" => (Lexer::kRETRY, Lexer::kRETRY, e), "return" => (Lexer::kRETURN, Lexer::kRETURN, m), "self" => (Lexer::kSELF, Lexer::kSELF, e), "super" => (Lexer::kSUPER, Lexer::kSUPER, a),
        "then" => (Lexer::kTHEN, Lexer::kTHEN, b), "true" => (Lexer::kTRUE, Lexer::kTRUE, e), "undef" => (Lexer::kUNDEF, Lexer::kUNDEF, f | EXPR_FITEM), "unless" => (Lexer::kUNLESS, Lexer::kUNLESS_MOD, v), "until" => (Lexer::kUNTIL, Lexer::kUNTIL_MOD, v),
        "when" => (Lexer::kWHEN, Lexer::kWHEN, v), "while" => (Lexer::kWHILE, Lexer::kWHILE_MOD, v), "yield" => (Lexer::kYIELD, Lexer::kYIELD, a),
        x => panic!("harness: {}", x),
    }
}
impl Prop for C10 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        let got = reserved_word(b).map(|w| format!("{:?}", w));
        let exp = KEYWORDS.iter().find(|k| k.as_bytes() == b).map(|k| { let (i, m, s) = kw_row(k); format!("ReservedWord {{ name: {:?}, id: {}, modifier_id: {}, state: {} }}", k, i, m, s) });
        if got != exp { return Err(format!("reserved_word({:?}) is {:?}, expected {:?}", String::from_utf8_lossy(b), got, exp)) }
        Ok(())
    }
    fn exhaustive(&self, cx: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) {
        for k in KEYWORDS {
            let k = k.as_bytes();
            f(k.to_vec());
            for i in 0..=k.len() {
                f(k[..i].to_vec());
                for c in 0..=255u8 { let mut v = k.to_vec(); v.insert(i, c); f(v.clone()); if i < k.len() { v.remove(i + 1); f(v); let mut w = k.to_vec(); w[i] = c; f(w) } }
                if i < k.len() { let mut v = k.to_vec(); v.remove(i); f(v); f(k[i..].to_vec()) }
            }
            f(k.to_ascii_uppercase());
            f(k.to_ascii_lowercase());
        }
        for d in &cx.dict { f(d.clone()) }
        product(&[b"a", b"d", b"e", b"f", b"i", b"n", b"o", b"r", b"s", b"E", b"_", b"\0"], 4 + (depth > 0) as usize, f);
        for n in 0..40 { f(vec![b'a'; n]) }
    }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> { match r.below(3) { 0 => r.pick(&cx.dict).clone(), 1 => { let k = r.pick(KEYWORDS).as_bytes().to_vec(); let mut v = mutate(r, cx, &k); v.truncate(64); v } _ => { let n = r.below(14); (0..n).map(|_| *r.pick(BYTES)).collect() } } }
    fn bound(&self, d: usize) -> String { format!("the 41 keywords with every edit of one byte, and all texts of at most {} of 12 letters", 4 + (d > 0) as usize) }
}

// ------------------------------------------------------------------ C13: body of a squiggly heredoc (first byte: 0 raw, 1 interpolating)
struct C13;
fn c13_src(b: &[u8]) -> Option<(bool, Vec<u8>, Vec<u8>)> {
    let raw = *b.first()? == 0;
    let mut body = b[1..].to_vec();
    if !body.is_empty() && body.last() != Some(&b'\n') { body.push(b'\n') }
    let mut s = if raw { b"<<~'Q'\n".to_vec() } else { b"<<~Q\n".to_vec() };
    s.extend(&body);
    s.extend(b"Q\n");
    Some((raw, body, s))
}
fn dedent_oracle(raw: bool, body: &[u8]) -> Option<Vec<Option<u8>>> {
    let mut width = usize::MAX;
    let lines: Vec<&[u8]> = body.split_inclusive(|c| *c == b'\n').collect();
    for l in &lines {
        if l.iter().any(|c| matches!(c, b'\r' | 0 | 4 | 26 | b'Q' | 128..)) { return None }
        // the only escape in here is a continued line
        if !raw { if let Some(k) = l.iter().position(|c| *c == b'\\') { if l[k..] != b"\\\n"[..] { return None } } }
        let mut w = 0;
        for c in l.iter() {
            match c { b' ' => w += 1, b'\t' => w = (w / 8 + 1) * 8, b'\n' => break, _ => { width = width.min(w); break } }
        }
    }
    if !raw && body.ends_with(b"\\\n") { return None }
    let mut out: Vec<Option<u8>> = vec![];
    for l in &lines {
        let mut w = 0;
        let mut i = 0;
        while i < l.len() && w < width {
            match l[i] { b' ' => w += 1, b'\t' => { let n = (w / 8 + 1) * 8; if n > width { break } w = n } _ => break }
            i += 1;
        }
        let mut j = i;
        'text: while j < l.len() {
            if !raw && l[j] == b'\\' { break }
            if !raw && l[j] == b'#' {
                if l[j..].starts_with(b"#{a}") { out.push(None); j += 4; continue }
                for v in [&b"#$1"[..], b"#@i", b"#@@i", b"#$g", b"#$&"] {
                    if l[j..].starts_with(v) && (v == b"#$&" || !l.get(j + v.len()).map_or(false, |c| c.is_ascii_alphanumeric() || *c == b'_')) { out.push(None); j += v.len(); continue 'text }
                }
                if matches!(l.get(j + 1), Some(b'{') | Some(b'@') | Some(b'$')) { return None }
            }
            out.push(Some(l[j]));
            j += 1;
        }
    }
    Some(out)
}
impl Prop for C13 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        let Some((raw, body, src)) = c13_src(b) else { return Ok(()) };
        let Some(exp) = dedent_oracle(raw, &body) else { return Ok(()) };
        let r = parse(&src);
        if let Some(e) = errors(&r).first() { return Err(format!("rejected: {}", e.render_message())) }
        let got = r.ast.as_ref().map(|n| text_of(n)).unwrap_or_default();
        if got != exp { return Err(format!("heredoc {:?} reads as {:?}, expected {:?}", String::from_utf8_lossy(&src), lossy(&got), lossy(&exp))) }
        Ok(())
    }
    fn on_panic(&self, _: &str, _: &str) -> Result<(), String> { Ok(()) }
    fn exhaustive(&self, _: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) {
        for k in 0..2u8 {
            product(&[b" ", b"\t", b"x", b"\n", b"#{a}", b"   ", b"\x0c", b"#$1", b"\\\n"], 5 + (depth > 1) as usize, &mut |v| { let mut x = vec![k]; x.extend(v); f(x) });
            for i in 0..19 { for j in 0..19 { for t in ["", "\t", "\t\t", " \t", "\t "] { for m in ["x", "#{a}", "", "\n"] {
                let mut v = vec![k]; v.extend(" ".repeat(i).bytes()); v.extend(t.bytes()); v.extend(b"y\n"); v.extend(" ".repeat(j).bytes()); v.extend(m.bytes()); v.extend(b"  z\n"); v.extend(t.bytes()); v.extend(b"  \n"); f(v) } } } }
        }
    }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> {
        let mut v = vec![r.below(2) as u8];
        for _ in 0..1 + r.below(6) {
            for _ in 0..r.below(5) { match r.below(4) { 0 => v.push(b'\t'), 1 => { let n = count(r, cx, 20); v.extend(std::iter::repeat(b' ').take(n.min(80))) } _ => v.push(b' ') } }
            for _ in 0..r.below(4) { v.extend(*r.pick(&[&b"x"[..], b"#{a}", b" ", b"\t", b"  ", b"yy", b"#", b"{", b"#$1", b"#@i", b"#@@i", b"#$g", b"#$&", b"\x0c", b"\x0b", b"\\"])) }
            v.push(b'\n');
        }
        v
    }
    fn show(&self, b: &[u8]) -> String { c13_src(b).map(|x| String::from_utf8_lossy(&x.2).into_owned()).unwrap_or_default() }
    fn bound(&self, d: usize) -> String { format!("all bodies of at most {} of 9 fragments, two-line bodies with all pairs of indentations up to 18, plus random bodies; raw and interpolating", 5 + (d > 1) as usize) }
}

// ------------------------------------------------------------------ C14: [form, flags, lines...]
struct C14;
const FORMS: &[(&str, &str, &str, bool)] = &[("<<", "'", "A", false), ("<<-", "'", "A", true), ("<<", "", "A", false), ("<<-", "", "A", true), ("<<~", "'", "A", true), ("<<~", "", "A", true), ("<<", "\"", "A B", false), ("<<-", "\"", "A B", true), ("<<-", "`", "A", true), ("<<", "", "\u{e9}x", false), ("<<-", "'", "EOS_1", true), ("<<", "'", "A ", false), ("<<-", "\"", "", true), ("<<", "\"", "", false)];
struct Here { src: Vec<u8>, body: Option<Vec<u8>>, id_end: usize, after: usize, squiggly: bool }
fn c14_src(b: &[u8]) -> Option<Here> {
    if b.len() < 2 { return None }
    let (op, q, id, indent) = FORMS[b[0] as usize % FORMS.len()];
    let crlf = b[1] & 1 != 0;
    let bom = b[1] & 2 != 0;
    if crlf && id.is_empty() { return None }
    let eof = b[1] & 4 != 0; // no newline after the terminator
    let mut s = vec![];
    if bom { s.extend(b"\xef\xbb\xbf") }
    if b[1] & 8 != 0 { s.extend(b"f(1, ") } else { s.extend(b"f(") }
    s.extend(op.as_bytes()); s.extend(q.as_bytes()); s.extend(id.as_bytes()); s.extend(q.as_bytes());
    let id_end = s.len();
    s.extend(b", yy)");
    let nl: &[u8] = if crlf { b"\r\n" } else { b"\n" };
    s.extend(nl);
    let mut body = vec![];
    let mut found = None;
    let text = &b[2..];
    if text.iter().any(|c| matches!(c, 0 | 4 | 11 | 26 | b'\\' | b'#' | b'\r')) { return None }
    if text.windows(3).any(|w| w == b"__E" || w == b"=be" || w == b"=en") { return None }
    let ls: Vec<&[u8]> = text.split(|c| *c == b'\n').collect();
    for (k, l) in ls.iter().enumerate() {
        // the chunk after the last newline is the last line of the file
        let last = k + 1 == ls.len();
        if found.is_none() {
            let t = if indent { let n = l.iter().take_while(|c| matches!(c, b' ' | b'\t' | 12)).count(); &l[n..] } else { *l };
            if t == id.as_bytes() && !(last && l.is_empty()) { s.extend(*l); if !(last && eof) { s.extend(nl) } found = Some(s.len()); continue }
            if !last || !l.is_empty() { body.extend(*l); body.push(b'\n') }
        }
        s.extend(*l);
        if !last || (!l.is_empty() && !eof) { s.extend(nl) }
    }
    Some(Here { src: s, body: found.map(|_| body), id_end, after: found.unwrap_or(0), squiggly: op == "<<~" })
}
const HL: &[&[u8]] = &[b"A", b"\n", b" ", b"\t", b"x", b"B", b"A\n", b"A B\n", b"EOS_1\n", b"\xc3\xa9x\n", b"a", b"_", b"  A\n", b"\x0b", b"zz\n", b"A \n"];
impl Prop for C14 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        let Some(h) = c14_src(b) else { return Ok(()) };
        let r = parse(&h.src);
        let Some(body) = h.body else {
            if errors(&r).is_empty() { return Err(format!("unterminated heredoc is accepted: {:?}", r.tokens)) }
            return Ok(());
        };
        // tokens: the opening, then string content, tSTRING_END on the terminator, then `,` `yy` `)` right after the identifier
        let Some(i) = r.tokens.iter().position(|t| t.loc.begin == h.id_end && t.token_name() == "tCOMMA") else { return Err(format!("lexing does not continue after the identifier (offset {}): {:?}", h.id_end, r.tokens)) };
        if !(r.tokens.get(i + 1).map_or(false, |t| t.as_bytes() == b"yy" && t.loc.begin == h.id_end + 2) && r.tokens.get(i + 2).map_or(false, |t| t.token_name() == "tRPAREN")) { return Err(format!("lexing does not continue after the identifier (offset {}): {:?}", h.id_end, r.tokens)) }
        // the first real token after the opening line starts behind the terminator line
        if !errors(&r).is_empty() {} else if let Some(t) = r.tokens[i + 3..].iter().find(|t| !matches!(t.token_name(), "tNL" | "END_OF_INPUT" | "EOF")) {
            if t.loc.begin < h.after { return Err(format!("{:?} lies inside the heredoc, which ends at {}", t, h.after)) }
            let gap = &h.src[h.after..t.loc.begin];
            if gap.iter().any(|c| !c.is_ascii_whitespace() && *c != 11) { return Err(format!("text between the terminator and {:?} is lost", t)) }
        } else if h.src[h.after..].iter().any(|c| !c.is_ascii_whitespace() && *c != 11) { return Err(format!("text after the terminator is lost: {:?}", r.tokens)) }
        let mut got = vec![];
        for t in &r.tokens[..i] { if t.token_name() == "tSTRING_CONTENT" { got.extend(t.as_bytes()) } }
        // (the content tokens of a squiggly heredoc are recorded before dedenting)
        let _ = h.squiggly;
        if got != body { return Err(format!("body reads as {:?}, expected {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&body))) }
        Ok(())
    }
    fn on_panic(&self, _: &str, _: &str) -> Result<(), String> { Ok(()) }
    fn exhaustive(&self, _: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) {
        for k in 0..FORMS.len() as u8 { for fl in 0..16u8 {
            let n = if fl == 0 { 4 } else { 3 } + (depth > 1) as usize;
            product(HL, n - (fl & 8 != 0) as usize, &mut |v| { let mut x = vec![k, fl]; x.extend(v); f(x) });
            if fl < 4 { for c in 0..=255u8 { for (p, s) in [("A", ""), ("", "A"), ("A\n", ""), ("x\nA", "")] {
                let id = FORMS[k as usize].2;
                let mut x = vec![k, fl]; x.extend(p.replace('A', id).bytes()); x.push(c); x.extend(s.replace('A', id).bytes()); x.extend(b"\n"); x.extend(id.as_bytes()); x.extend(b"\nzz\n"); f(x) } } }
        } }
    }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> {
        let mut v = vec![r.below(FORMS.len()) as u8, r.below(16) as u8];
        let id = FORMS[v[0] as usize].2.as_bytes().to_vec();
        for _ in 0..1 + r.below(8) {
            match r.below(6) { 0 => v.extend(&id), 1 => { v.extend(&id); v.push(b'\n') } 2 => v.push(b'\n'), 3 => v.extend(r.pick(&cx.dict)), 4 => { let n = count(r, cx, 9); v.extend(std::iter::repeat(*r.pick(b" \txA")).take(n.min(300))) } _ => v.extend(*r.pick(HL)) }
        }
        v.push(b'\n'); v.extend(&id); v.extend(b"\nzz\n");
        v
    }
    fn show(&self, b: &[u8]) -> String { c14_src(b).map(|x| String::from_utf8_lossy(&x.src).into_owned()).unwrap_or_default() }
    fn bound(&self, _: usize) -> String { format!("{} heredoc forms x LF/CRLF x byte order mark x final newline, all bodies of up to 3-4 of {} fragments, near-miss terminators with every byte, plus random bodies", FORMS.len(), HL.len()) }
}

// ------------------------------------------------------------------ C15: each input byte selects a piece of a program whose comments are known
struct C15;
// (text, comment ranges); every piece ends with a newline and leaves the lexer at the start of a statement
fn pieces() -> Vec<(Vec<u8>, Vec<(usize, usize, bool)>)> {
    let mut v: Vec<(Vec<u8>, Vec<(usize, usize, bool)>)> = vec![];
    let mut add = |s: &str| {
        // \u{1} .. \u{2}: comment (inline), \u{3} .. \u{2}: document comment
        let (mut t, mut c, mut st) = (vec![], vec![], None);
        for b in s.bytes() { match b { 1 => st = Some((t.len(), true)), 3 => st = Some((t.len(), false)), 2 => { let (x, i) = st.take().unwrap(); c.push((x, t.len(), i)) } 0x7f => t.push(0xff), b => t.push(b) } }
        assert!(st.is_none());
        v.push((t, c));
    };
    for s in [
        "a = 1\n", "\n", "  \n", "\u{1}# c\n\u{2}", "  \u{1}# c\n\u{2}", "\t\u{1}#\n\u{2}", "\u{1}##\n\u{2}", "a = 1 \u{1}# c # d\n\u{2}", "a\u{1}#c\n\u{2}", "a = \u{1}# c\n\u{2}  1\n", "foo(1, \u{1}# c\n\u{2}  \u{1}# d\n\u{2}  2)\n", "[1, \u{1}#x\n\u{2}2]\n", "a.\u{1}# c\n\u{2}b\n", "a \u{1}# c\n\u{2}  .b\n", "a\n  \u{1}# c\n\u{2}  .b\n",
        "\"# no\"\n", "'# no'\n", "\"\\# no\"\n", "`# no`\n", "%w[# no]\n", "%q(#) \u{1}# yes\n\u{2}", "/# no/\n", "/# no/x\n", "?# \u{1}# yes\n\u{2}", ":\"#\"\n", "<<A \u{1}# yes\n\u{2}# no\nA\n", "<<~'A'\n  # no\n  A\n", "<<A\n#{1 \u{1}# yes\n\u{2}}\nA\n", "\"#{1 \u{1}# yes\n\u{2}}\"\n", "\"#{1}# no\"\n",
        "\u{3}=begin\nx\n=end\n\u{2}", "\u{3}=begin x y\n# z\n=begin\n=end foo\n\u{2}", "\u{3}=begin\n=end\n\u{2}", "\u{3}=begin\n =end\n=ende\n=end\tq\n\u{2}", "\u{3}=begin\n\n\n=end\n\u{2}", "a = 1; \u{1}# =begin\n\u{2}", "x = 1\n\u{3}=begin\n=\n=e\n=en\n=end\n\u{2}", "a +\n\u{3}=begin\nq\n=end\n\u{2}1\n", "a\n\u{3}=begin\nq\n=end\n\u{2}b\n",
        "if a \u{1}# c\n\u{2}  b\nend \u{1}# d\n\u{2}", "def a \u{1}# c\n\u{2}  \u{1}# c\n\u{2}end\n", "{ a: 1, \u{1}# c\n\u{2}  b: 2 }\n", "foo do |x| \u{1}# c\n\u{2}end\n", "\u{1}# encoding: utf-8\n\u{2}", "\u{1}# -*- coding: utf-8 -*-\n\u{2}", "\u{1}# frozen_string_literal: true\n\u{2}", "\u{1}#!/bin/ruby\n\u{2}", "\u{1}# \u{e9} c\n\u{2}", "\u{1}# c\r\n\u{2}", "a = 1\r\n", "a = 1 \u{1}# c\r\n\u{2}", "\u{3}=begin\r\nx\r\n=end\r\n\u{2}", "(return) \u{1}# c\n\u{2}", "case a \u{1}# c\n\u{2}when 1 \u{1}# d\n\u{2}then 2\nend\n", "->(a) { \u{1}# c\n\u{2}}\n", "a ? b : \u{1}# c\n\u{2}c\n", "a && \u{1}# c\n\u{2}b\n", "\u{1}# warn_indent: true\n\u{2}", "\u{1}# a: b; c: d\n\u{2}", "\u{1}# -*- \u{7f}: x -*-\n\u{2}", "\u{1}# \u{7f}\n\u{2}", "a \u{1}#-*-coding:\u{7f}\n\u{2}", "\u{3}=begin\n=end\u{0}\n\u{2}", "a \u{1}# x\n\u{2}  \u{1}# y\n\u{2}  &.b\n", "a \\\n  b \u{1}# c\n\u{2}", "class A \u{1}# c\n\u{2}end\n", "class A < \u{1}#c\n\u{2}B; end\n", "alias a \u{1}# c\n\u{2}b\n", "undef a, \u{1}# c\n\u{2}b\n", "x = <<A, <<B \u{1}# c\n\u{2}# no\nA\n# no\nB\n\u{1}# d\n\u{2}", "%w(\n# no\n) \u{1}#\n\u{2}", "$# \n", "f \u{1}# c\n\u{2}", "f(a: \u{1}# c\n\u{2}1)\n", "f a: \u{1}# c\n\u{2}1\n",
    ] { if s != "$# \n" { add(s) } }
    v
}
fn c15_src(b: &[u8]) -> (Vec<u8>, Vec<(usize, usize, bool)>) {
    thread_local! { static P: Vec<(Vec<u8>, Vec<(usize, usize, bool)>)> = pieces(); }
    P.with(|ps| {
        let (mut s, mut c) = (vec![], vec![]);
        for x in b {
            if *x == 255 { continue }
            if *x == 254 { if s.is_empty() { s.extend(b"\xef\xbb\xbf") } continue }
            let (t, k) = &ps[*x as usize % ps.len()];
            c.extend(k.iter().map(|(a, e, i)| (a + s.len(), e + s.len(), *i)));
            s.extend(t);
        }
        // 255 at the end: drop the final newline
        if b.last() == Some(&255) && s.last() == Some(&b'\n') {
            s.pop();
            if let Some(l) = c.last_mut() { if l.1 > s.len() { l.1 = s.len() } }
        }
        (s, c)
    })
}
impl Prop for C15 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        let (s, exp) = c15_src(b);
        let r = parse(&s);
        let got: Vec<(usize, usize, bool)> = r.comments.iter().map(|c| (c.location.begin, c.location.end, c.kind == CommentType::Inline)).collect();
        // the pieces are valid programs; an error alone is not about comments
        if got != exp { return Err(format!("comments are {:?}, expected {:?}, errors {:?}", got, exp, errors(&r))) }
        for c in &r.comments { if c.kind == CommentType::Unknown { return Err(format!("unknown kind at {:?}", c.location)) } }
        // kinds are a function of the text
        for c in &r.comments { if Comment::new(c.location, &r.input) != *c { return Err("Comment::new disagrees".into()) } }
        let d = &r.input;
        for l in [Loc { begin: 0, end: s.len() }, Loc { begin: s.len(), end: s.len() + 1 }, Loc { begin: 1, end: 0 }] {
            let k = Comment::new(l, d).kind;
            let t = s.get(l.begin..l.end).filter(|_| l.begin <= l.end);
            let e = match t { Some(t) if t.starts_with(b"#") => CommentType::Inline, Some(t) if t.starts_with(b"=begin") => CommentType::Document, _ => CommentType::Unknown };
            if k != e { return Err(format!("kind of {:?} is {:?}, expected {:?}", l, k, e)) }
        }
        Ok(())
    }
    fn on_panic(&self, _: &str, _: &str) -> Result<(), String> { Ok(()) }
    fn exhaustive(&self, _: &Ctx, _: usize, f: &mut dyn FnMut(Vec<u8>)) {
        let n = pieces().len() as u8;
        for a in 0..n { f(vec![a]); f(vec![a, 255]); f(vec![254, a]); f(vec![254, a, 255]); for b in 0..n { f(vec![a, b]); f(vec![a, b, 255]) } }
    }
    fn random(&self, r: &mut Rng, _: &Ctx) -> Vec<u8> { let n = pieces_len(); let k = 1 + r.below(12); let mut v: Vec<u8> = (0..k).map(|_| r.below(n) as u8).collect(); if r.one_in(3) { v.push(255) } if r.one_in(5) { v.insert(0, 254) } v }
    fn show(&self, b: &[u8]) -> String { String::from_utf8_lossy(&c15_src(b).0).into_owned() }
    fn bound(&self, _: usize) -> String { format!("all pairs of {} program pieces with known comments, with and without a final newline, plus random sequences", pieces_len()) }
}
fn pieces_len() -> usize { thread_local! { static N: usize = pieces().len(); } N.with(|n| *n) }
