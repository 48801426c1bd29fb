//! Input generation: fragments, token soup, mutation, source-derived dictionary.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub struct Ctx {
    /// fragments taken from string/char/byte literals of the current sources
    pub dict: Vec<Vec<u8>>,
    /// small integers appearing in the current sources
    pub nums: Vec<usize>,
    pub corpus: Vec<Vec<u8>>,
}

pub const FRAGS: &[&str] = &[
    "a", "b", "foo", "Foo", "FOO", "_", "_1", "é", "ñandú", "日本", "x1", "a?", "a!", "b=", "foo:", "\"foo\":", "'foo':", ":foo", ":\"foo", ":'foo", ":+", ":[]=", "@a", "@@a", "$a", "$1", "$12", "$-w", "$_", "$_a", "$~", "$&", "$", "@", "@@", "@1", "$ ", "$-", "$é", "@é",
    "0", "1", "12", "0x1F", "0b1", "0o7", "0d9", "017", "08", "1_000", "1_", "1__0", "1.5", "1.", "1e5", "1e", "1e+", "1E-2", "1r", "1i", "1ri", "0x", "0b2", "0_7", "1.5r", "1e5i", ".5", "1..2", "1...2", "-1", "+1", "0i", "0r",
    " ", "\n", "\t", "\r\n", "\r", ";", "  ", "\\\n", "\x0c", "\x0b", "\\", "\\ ", "\0", "\x04", "\x1a",
    "#", "# c\n", "# encoding: utf-8\n", "# -*- coding: utf-8 -*-\n", "# frozen_string_literal: true\n", "#!ruby\n", "=begin\nx\n=end\n", "=begin\n", "=end\n", "__END__\n", "__END__",
    "\"", "'", "`", "\"a\"", "'a'", "`a`", "\"\\n\"", "\"\\u00e9\"", "\"\\u{e9 61}\"", "\"\\x41\"", "\"\\101\"", "\"\\M-a\"", "\"\\C-a\"", "\"\\M-\\C-a\"", "\"\\c?\"", "\\u", "\\u{", "\\u{61", "\\x", "\\8", "\\M-", "\\C-", "\\c", "#{", "#{a}", "#@a", "#$a", "#@", "#$", "\"#{a}b\"", "\"a#", 
    "?a", "?\\n", "?\\u0041", "?\\u{41 42}", "?é", "? ", "?", "?\\", "?aa", "?\\M-a",
    "%w[a b]", "%W[a #{b}]", "%i[a b]", "%I[a]", "%q(a(b)c)", "%Q<a>", "%(a)", "%r{a}i", "%x(a)", "%s(a)", "%", "%w[", "%q(", "%r{", "%=", "%é", "%z(", "%w", "%[",
    "/a/", "/a/imx", "/a", "/", "/\\//", "/#{a}/", "/\\u{61}/", "/\\cA/", "/a/q", "/[/]/",
    "<<A\n", "<<-A\n", "<<~A\n", "<<'A'\n", "<<\"A\"\n", "<<`A`\n", "<<~'A'\n", "<<~\"A B\"\n", "A\n", "  A\n", "\tA\n", "A", " x\n", "  x\n", "\tx\n", "  #{a}\n", "  \\\n", "x\\\n", "\n", "<<A", "<<~A", "<<A, <<B\n", "B\n", "<<'A", "<<~'A B'", "<<é\n", "é\n", "A\r\n", "<<A\r\n",
    "(", ")", "[", "]", "{", "}", "|", "||", "&", "&&", "&.", ".", "..", "...", ",", "=>", "->", "=", "==", "===", "=~", "!", "!=", "!~", "!@", "~", "~@", "+", "+@", "-", "-@", "*", "**", "*=", "**=", "<", "<=", "<=>", "<<", "<<=", ">", ">=", ">>", ">>=", "^", "^=", "?", ":", "::", "+=", "-=", "||=", "&&=", "|=", "&=", "/=",
    "def ", "end", "if ", "do", "do |a|", "class ", "module ", "while ", "begin", "rescue", "return ", "yield", "self", "nil", "true", "alias ", "undef ", "defined?", "not ", "and ", "or ", "in ", "for ", "case ", "when ", "then ", "else", "BEGIN{", "END{", "__FILE__", "__LINE__", "__ENCODING__", "super", "unless ", "until ", "redo", "retry", "next", "break", "ensure", "elsif ",
    "def a(", "def a=", "def +@", "def `", "a.b", "a&.b", "a::B", "::B", "a b", "a -1", "a *b", "a &b", "a [1]", "a (1)", "a /1", "a ?x", "a %w", "a <<A\n", "-> {", "->(a) {", "a {|b|", "{a: 1}", "**a", "*a", "&a", "(...)", "a => b", "_1 + _2", "a = 1", "if a then b end", "\u{feff}", "\u{2028}",
];
pub const BYTES: &[u8] = b"\x00\x01\x04\x08\t\n\x0b\x0c\r\x1a\x1b !\"#$%&'()*+,-./0123456789:;<=>?@ABCMXZ[\\]^_`abcdefiknorstuvwxyz{|}~\x7f\x80\xa9\xbb\xbf\xc3\xe2\xe3\xef\xf0\xff";

pub fn soup(r: &mut Rng, cx: &Ctx, max: usize) -> Vec<u8> {
    let n = 1 + r.below(max);
    let mut v = vec![];
    for _ in 0..n {
        match r.below(24) {
            0 => v.push(*r.pick(BYTES)),
            1 => { let d = r.pick(&cx.dict); v.extend(d) }
            2 => {
                let f = if r.one_in(3) { r.pick(&cx.dict).clone() } else { r.pick(FRAGS).as_bytes().to_vec() };
                let k = count(r, cx, 70);
                if f.len() * k < 4096 { for _ in 0..k { v.extend(&f) } }
            }
            3 => v.push(r.below(256) as u8),
            _ => v.extend(r.pick(FRAGS).as_bytes()),
        }
        if r.one_in(9) { v.push(b'\n') } else if r.one_in(5) { v.push(b' ') }
    }
    if v.len() > 6000 { v.truncate(6000) }
    v
}
pub fn count(r: &mut Rng, cx: &Ctx, dflt: usize) -> usize {
    if r.one_in(2) && !cx.nums.is_empty() {
        let n = *r.pick(&cx.nums);
        let d = r.below(3);
        (n + d).saturating_sub(1).min(1100)
    } else { r.below(dflt) }
}
pub fn mutate(r: &mut Rng, cx: &Ctx, base: &[u8]) -> Vec<u8> {
    let mut v = base.to_vec();
    for _ in 0..1 + r.below(4) {
        match r.below(8) {
            0 if !v.is_empty() => { let i = r.below(v.len()); v.truncate(i); }
            1 if !v.is_empty() => { let i = r.below(v.len()); let n = 1 + r.below(4); for _ in 0..n { if i < v.len() { v.remove(i); } } }
            2 if !v.is_empty() => { let i = r.below(v.len()); v[i] = *r.pick(BYTES); }
            3 => { let i = r.below(v.len() + 1); let f = if r.one_in(4) { r.pick(&cx.dict).clone() } else { r.pick(FRAGS).as_bytes().to_vec() }; v.splice(i..i, f); }
            4 => { let i = r.below(v.len() + 1); let c = r.pick(&cx.corpus).clone(); if v.len() + c.len() < 6000 { v.splice(i..i, c); } }
            5 if v.len() > 2 => { let i = r.below(v.len()); let j = i + r.below(v.len() - i); let s = v[i..j].to_vec(); let k = r.below(v.len()); if v.len() + s.len() < 6000 { v.splice(k..k, s); } }
            6 => { let i = r.below(v.len() + 1); v.insert(i, *r.pick(BYTES)); }
            _ => { let i = r.below(v.len() + 1); v.insert(i, b'\n'); }
        }
    }
    v
}
pub fn ruby(r: &mut Rng, cx: &Ctx) -> Vec<u8> {
    match r.below(5) {
        0 | 1 => { let b = r.pick(&cx.corpus).clone(); mutate(r, cx, &b) }
        2 => soup(r, cx, 4),
        3 => soup(r, cx, 9),
        _ => soup(r, cx, 20),
    }
}
/// all concatenations of up to `k` fragments
pub fn product(frags: &[&[u8]], k: usize, f: &mut dyn FnMut(Vec<u8>)) {
    fn go(frags: &[&[u8]], k: usize, cur: &mut Vec<u8>, f: &mut dyn FnMut(Vec<u8>)) {
        f(cur.clone());
        if k == 0 { return }
        for x in frags {
            let n = cur.len();
            cur.extend_from_slice(x);
            go(frags, k - 1, cur, f);
            cur.truncate(n);
        }
    }
    go(frags, k, &mut vec![], f)
}
/// pull literals and small numbers out of the current sources
pub fn scan_sources(dir: &std::path::Path, cx: &mut Ctx) {
    let mut stack = vec![dir.to_path_buf()];
    while let Some(d) = stack.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() {
                let n = p.file_name().unwrap().to_string_lossy().to_string();
                if n != "nodes" && n != "bin" && n != "tests" { stack.push(p) }
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                let n = p.file_name().unwrap().to_string_lossy().to_string();
                if n == "parse.rs" || n == "messages.rs" || n == "parse_value.rs" { continue }
                if let Ok(s) = std::fs::read_to_string(&p) { scan(&s, cx, n == "builder.rs") }
            }
        }
    }
    cx.dict.sort();
    cx.dict.dedup();
    cx.nums.sort();
    cx.nums.dedup();
    if cx.dict.is_empty() { cx.dict.push(b"a".to_vec()) }
}
fn scan(s: &str, cx: &mut Ctx, only_nums: bool) {
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'/' if b.get(i + 1) == Some(&b'/') => { while i < b.len() && b[i] != b'\n' { i += 1 } }
            b'"' => {
                let mut v = vec![];
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    if b[i] == b'\\' && i + 1 < b.len() {
                        i += 1;
                        v.push(match b[i] { b'n' => b'\n', b't' => b'\t', b'r' => b'\r', b'0' => 0, c => c });
                    } else { v.push(b[i]) }
                    i += 1;
                }
                if !only_nums && !v.is_empty() && v.len() <= 24 && !v.contains(&b'{') { cx.dict.push(v) }
            }
            b'\'' if b.get(i + 1).is_some() => {
                if b[i + 1] == b'\\' && b.get(i + 3) == Some(&b'\'') { i += 3 }
                else if b.get(i + 2) == Some(&b'\'') { if !only_nums { cx.dict.push(vec![b[i + 1]]) } i += 2 }
            }
            c if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) => {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1 }
                let t = s[st..i].replace('_', "");
                let t = t.trim_end_matches("usize").trim_end_matches("i32").trim_end_matches("u8").trim_end_matches("u32").trim_end_matches("i64");
                let n = if let Some(h) = t.strip_prefix("0x") { usize::from_str_radix(h, 16).ok() } else { t.parse().ok() };
                if let Some(n) = n {
                    if n < 1024 { cx.nums.push(n) }
                    if n < 256 { cx.dict.push(vec![n as u8]) }
                    if n > 9 { cx.dict.push(n.to_string().into_bytes()) }
                }
                continue;
            }
            _ => {}
        }
        i += 1;
    }
}
