@modprelude
broadcast use {vpax::g_eq, vpdg::g_rec, vphas::g_has};
@prelude
// ---------- what the tokenizer guarantees between any two of its steps ----------
pub open spec fn loc_in(l: Loc, n: int) -> bool { l.begin <= l.end && l.end <= n }
pub mod vpdg {
use super::*;
/// every recorded diagnostic, comment and magic comment lies inside the input
#[verifier::opaque]
pub open spec fn diags_ok(d: Seq<Diagnostic>, n: int) -> bool { forall|i: int| 0 <= i < d.len() ==> loc_in((#[trigger] d[i]).loc, n) }
#[verifier::opaque]
pub open spec fn comments_ok(d: Seq<Comment>, n: int) -> bool { forall|i: int| 0 <= i < d.len() ==> loc_in((#[trigger] d[i]).location, n) }
#[verifier::opaque]
pub open spec fn magics_ok(d: Seq<MagicComment>, n: int) -> bool { forall|i: int| 0 <= i < d.len() ==> loc_in((#[trigger] d[i]).key_l, n) && loc_in(d[i].value_l, n) }
pub broadcast proof fn lemma_diags_push(d: Seq<Diagnostic>, n: int, x: Diagnostic) requires diags_ok(d, n), loc_in(x.loc, n) ensures #[trigger] diags_ok(d.push(x), n) { reveal(diags_ok); }
pub broadcast proof fn lemma_comments_push(d: Seq<Comment>, n: int, x: Comment) requires comments_ok(d, n), loc_in(x.location, n) ensures #[trigger] comments_ok(d.push(x), n) { reveal(comments_ok); }
pub broadcast proof fn lemma_magics_push(d: Seq<MagicComment>, n: int, x: MagicComment) requires magics_ok(d, n), loc_in(x.key_l, n), loc_in(x.value_l, n) ensures #[trigger] magics_ok(d.push(x), n) { reveal(magics_ok); }
/// number of errors (not warnings) reported
pub open spec fn nerr(d: Seq<Diagnostic>) -> nat decreases d.len() { if d.len() == 0 { 0 } else { nerr(d.drop_last()) + (if d.last().level is Error { 1nat } else { 0nat }) } }
pub broadcast proof fn lemma_nerr_push(d: Seq<Diagnostic>, x: Diagnostic) ensures #[trigger] nerr(d.push(x)) == nerr(d) + (if x.level is Error { 1nat } else { 0nat }) { assert(d.push(x).drop_last() =~= d); }
pub broadcast group g_rec { lemma_diags_push, lemma_comments_push, lemma_magics_push, lemma_nerr_push }
}
use vpdg::*;
/// the heredoc can be resumed: its identifier lies on a line that has been read
pub open spec fn here_ok(h: HeredocLiteral, b: Seq<u8>, ls: Seq<SourceLine>, lc: int) -> bool {
    &&& h.lastline < lc <= ls.len()
    &&& h.sourceline <= lc
    &&& h.quote <= 1
    &&& 2 + h.quote <= h.offset
    &&& ls[h.lastline as int].start + h.offset + h.length + h.quote <= ls[h.lastline as int].end
    &&& at_char(b, ls[h.lastline as int].start + h.offset + h.length + h.quote, ls[h.lastline as int].start as int, ls[h.lastline as int].end as int)
}
pub open spec fn strterm_ok(t: Option<Box<StrTerm>>, b: Seq<u8>, ls: Seq<SourceLine>, lc: int) -> bool {
    match t {
        None => true,
        Some(t) => match *t {
            StrTerm::HeredocLiteral(h) => here_ok(h, b, ls, lc),
            StrTerm::StringLiteral(s) => lit_ok(s, b),
        }
    }
}
pub open spec fn lit_ok(s: StringLiteral, b: Seq<u8>) -> bool { s.heredoc_end is Some ==> s.heredoc_end->Some_0.start <= s.heredoc_end->Some_0.end && s.heredoc_end->Some_0.end <= b.len() }
/// n bytes at p form one character
pub open spec fn mb_ok(b: Seq<u8>, p: int, n: int) -> bool { 1 <= n <= 4 && p + n <= b.len() && (n == 1 <==> b[p] < 128) && (n > 1 ==> forall|i: int| p <= i < p + n ==> #[trigger] b[i] >= 128) }
pub proof fn lemma_one_char(s: Seq<u8>)
    requires 1 <= s.len() <= 4, s.len() == 1 <==> s[0] < 128, s.len() == 2 ==> s[0] & 0xE0 == 0xC0, s.len() == 3 ==> s[0] & 0xF0 == 0xE0, s.len() == 4 ==> s[0] & 0xF8 == 0xF0,
    ensures valid_utf8(s) && s.len() > 1 ==> forall|i: int| 0 <= i < s.len() ==> s[i] >= 128,
{
    let c = s[0];
    assert(c & 0xE0 == 0xC0 <==> 0xC0 <= c <= 0xDF) by (bit_vector);
    assert(c & 0xF0 == 0xE0 <==> 0xE0 <= c <= 0xEF) by (bit_vector);
    assert(c & 0xF8 == 0xF0 <==> 0xF0 <= c <= 0xF7) by (bit_vector);
    if valid_utf8(s) && s.len() > 1 {
        reveal_with_fuel(valid_utf8, 2);
        assert forall|i: int| 0 <= i < s.len() implies s[i] >= 128 by {}
    }
}
impl Lexer {
    pub open spec fn b(&self) -> Seq<u8> { self.buffer.b() }
    pub open spec fn len(&self) -> int { self.buffer.b().len() as int }
    pub open spec fn recs_ok(&self) -> bool { diags_ok(self.diagnostics.list@, self.len()) && comments_ok(self.comments@, self.len()) && magics_ok(self.magic_comments@, self.len()) }
    pub open spec fn st_ok(&self) -> bool { strterm_ok(self.strterm, self.b(), self.buffer.ls(), self.buffer.line_count as int) }
    pub open spec fn wf(&self) -> bool { self.buffer.wf() && self.recs_ok() && self.st_ok() }
    pub open spec fn nerr(&self) -> nat { nerr(self.diagnostics.list@) }
    pub open spec fn same_src(&self, o: Lexer) -> bool { self.nerr() >= o.nerr() && self.buffer.b() == o.buffer.b() && self.buffer.ls() == o.buffer.ls() && self.buffer.line_count >= o.buffer.line_count }
    pub open spec fn same_lval(&self, o: Lexer) -> bool { self.lval_start == o.lval_start && self.lval_end == o.lval_end }
    pub open spec fn same_nest(&self, o: Lexer) -> bool { self.same_nest0(o) && self.comments == o.comments }
    pub open spec fn same_nest0(&self, o: Lexer) -> bool { self.paren_nest == o.paren_nest && self.brace_nest == o.brace_nest && (self.lpar_beg == o.lpar_beg || self.lpar_beg == -1) }
    pub open spec fn step(&self, o: Lexer) -> bool { self.same_src(o) && self.same_lval(o) && self.same_nest(o) }
    /// nothing but the diagnostics changed
    pub open spec fn quiet(&self, o: Lexer) -> bool { self.nerr() >= o.nerr() && *self == (Lexer { diagnostics: self.diagnostics, ..o }) }
    /// nothing but the reading position (and the diagnostics) changed
    pub open spec fn only_buffer(&self, o: Lexer) -> bool { *self == (Lexer { buffer: self.buffer, ..o }) }
    /// the last character can be pushed back without leaving the token
    pub open spec fn unread(&self) -> bool { self.buffer.pbeg < self.buffer.pcur && self.buffer.ptok <= back(self.b(), self.buffer.pcur as int, self.buffer.pbeg as int) }
    pub open spec fn fwd(&self, o: Lexer) -> bool { self.buffer.pcur >= o.buffer.pcur }
    /// where the token that is about to be returned lies
    pub open spec fn tok_begin(&self) -> int { if self.lval_start is Some { self.lval_start->Some_0 as int } else { self.buffer.ptok as int } }
    pub open spec fn tok_end(&self) -> int { if self.lval_end is Some { self.lval_end->Some_0 as int } else { self.buffer.pcur as int } }
    pub open spec fn tok_ok(&self, t: i32) -> bool { self.tok_begin() <= self.tok_end() && self.tok_end() <= self.len() && (t == Lexer::tNL ==> self.tok_begin() < self.len()) }
}
pub proof fn lemma_line_bounds(x: Buffer, l: int)
    requires x.input_ok(), 0 <= l < x.ls().len(),
    ensures x.ls()[l].start <= x.ls()[l].end, x.ls()[l].end <= x.b().len(),
{ reveal(lines_ok); }
/// a line that does not end with a newline ends the input
pub proof fn lemma_last_line(x: Buffer)
    requires x.input_ok(), x.line_ok(),
    ensures x.pend == x.b().len() || (x.pend > 0 && x.b()[x.pend - 1] == 10),
{
    reveal(lines_ok);
    let l = x.lastline as int;
    if l == x.ls().len() - 1 { assert(x.ls().last() == x.ls()[l]); } else { assert(x.b()[x.pend - 1] == 10); }
}
/// bytes other than newlines that follow a position of a line are on that line
pub proof fn lemma_run_in_line(x: Buffer, p: int, n: int)
    requires x.input_ok(), x.line_ok(), x.pbeg <= p <= x.pend, p < x.pend || (x.pbeg < x.pend && x.b()[x.pend - 1] != 10), 0 <= n, p + n <= x.b().len(), forall|i: int| p <= i < p + n ==> x.b()[i] != 10,
    ensures p + n <= x.pend,
{
    reveal(lines_ok);
    if p + n > x.pend {
        let l = x.lastline as int;
        if l == x.ls().len() - 1 { assert(x.ls().last() == x.ls()[l]); assert(false); }
        assert(x.b()[x.pend - 1] == 10);
        assert(false);
    }
}
/// a multi-byte character does not contain a newline, so it cannot leave its line
pub proof fn lemma_char_in_line(x: Buffer, ptr: int, n: int)
    requires x.input_ok(), x.line_ok(), x.pbeg <= ptr < x.pend, 1 <= n, ptr + n <= x.b().len(), n > 1 ==> (forall|i: int| ptr <= i < ptr + n ==> x.b()[i] >= 128),
    ensures ptr + n <= x.pend,
{
    reveal(lines_ok);
    if ptr + n > x.pend {
        assert(x.pend < x.b().len());
        let l = x.lastline as int;
        if l == x.ls().len() - 1 { assert(x.ls().last() == x.ls()[l]); assert(false); }
        assert(x.b()[x.pend - 1] == 10);
        assert(false);
    }
}
#[verifier::external_body]
pub struct SharedContext { x: u8 }
impl SharedContext {
    #[verifier::external_body] pub fn in_kwarg(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn in_argdef(&self) -> bool { unimplemented!() }
}
#[verifier::external_body]
pub struct StaticEnvironment { x: u8 }
impl StaticEnvironment { #[verifier::external_body] pub fn is_declared(&self, name: &str) -> bool { unimplemented!() } }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct PoolFactory<T> { x: Vec<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)]
pub struct PoolValue<T> { x: Vec<T> }
impl<T> PoolValue<T> { pub uninterp spec fn pv(&self) -> T; }
impl<T> PoolFactory<T> { #[verifier::external_body] pub fn alloc(&self, t: T) -> (r: PoolValue<T>) ensures r.pv() == t { unimplemented!() } }
#[verifier::external_body]
pub fn reserved_word(tok: &[u8]) -> (r: Option<&'static ReservedWord>) ensures r is Some ==> plain(r->Some_0.id) && plain(r->Some_0.modifier_id) { unimplemented!() }
impl TokenBuf { #[verifier::external_body] pub fn default() -> (r: TokenBuf) ensures r.bytes.raw@ == Seq::<u8>::empty() { unimplemented!() } }
impl InputError { #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() } }
/// trusted: machine arithmetic treated as mathematical (a counter bounded by the size of the input)
#[verifier::external_body]
pub fn vp_add_i32(a: i32, b: i32) -> (r: i32) ensures i32::MIN <= a + b <= i32::MAX ==> r == a + b { unimplemented!() }
#[verifier::external_body]
pub fn vp_add_usize(a: usize, b: usize) -> (r: usize) ensures a + b <= usize::MAX ==> r == a + b { unimplemented!() }
#[verifier::external_body]
pub fn vp_mul_i32(a: i32, b: i32) -> (r: i32) ensures i32::MIN <= a * b <= i32::MAX ==> r == a * b { unimplemented!() }
pub open spec fn hexdig(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
/// write!(&mut buf[..], "\\x{:02X}", b).unwrap()
#[verifier::external_body]
pub fn vp_write_hex(buf: &mut [u8; 5], b: u8) ensures final(buf)@ == seq![92u8, 120u8, hexdig(b as int / 16), hexdig(b as int % 16), old(buf)@[4]] { unimplemented!() }
/// the value of a variable that is assigned before it is read
#[verifier::external_body]
pub fn vp_no_end() -> HeredocEnd { unimplemented!() }
/// char::to_string()
#[verifier::external_body]
pub fn vp_char_string(c: char) -> (r: String) ensures r@ == seq![c] { unimplemented!() }
/// char::to_string().into_bytes()
#[verifier::external_body]
pub fn vp_char_bytes(c: char) -> (r: Vec<u8>) ensures r@ == utf8(seq![c]) { unimplemented!() }
pub assume_specification<T, F: FnOnce() -> Option<T>> [std::option::Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<Box<T, A> as std::convert::AsRef<T>>::as_ref] (b: &Box<T, A>) -> (r: &T) ensures r == (&**b);
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (a: Result<T, E>, b: T) -> (r: T) ensures a is Ok ==> r == a->Ok_0, a is Err ==> r == b;
pub assume_specification [char::is_uppercase] (c: char) -> bool;
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
pub assume_specification [String::from_utf8] (v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>) ensures r is Ok <==> valid_utf8(v@), r is Ok ==> utf8(r->Ok_0@) == v@;
pub open spec fn hexval(c: u8) -> int { if c <= 57 { c - 48 } else if c <= 70 { c - 55 } else { c - 87 } }
pub assume_specification [usize::from_str_radix] (s: &str, radix: u32) -> (r: Result<usize, std::num::ParseIntError>)
    requires 2 <= radix <= 36,
    ensures radix == 16 && s@.len() == 1 ==> (if (s@[0] as u32) < 128 && is_hex(s@[0] as u8) { r is Ok && r->Ok_0 == hexval(s@[0] as u8) } else { r is Err });
pub assume_specification [std::char::from_u32] (x: u32) -> (r: Option<char>)
    ensures r is Some <==> x < 0xd800 || 0xe000 <= x <= 0x10ffff, r is Some ==> r->Some_0 as u32 == x;
// ---------- escape sequences ----------
pub open spec fn hex_run(b: Seq<u8>, p: int, max: int) -> int decreases max { if max <= 0 || p < 0 || p >= b.len() || !is_hex(b[p]) { 0 } else { 1 + hex_run(b, p + 1, max - 1) } }
pub open spec fn hex_val(b: Seq<u8>, p: int, n: int) -> int decreases n { if n <= 0 { 0 } else { hex_val(b, p, n - 1) * 16 + hexval(b[p + n - 1]) } }
pub open spec fn is_oct(c: u8) -> bool { 48 <= c <= 55 }
pub open spec fn oct_run(b: Seq<u8>, p: int, max: int) -> int decreases max { if max <= 0 || p < 0 || p >= b.len() || !is_oct(b[p]) { 0 } else { 1 + oct_run(b, p + 1, max - 1) } }
pub open spec fn oct_val(b: Seq<u8>, p: int, n: int) -> int decreases n { if n <= 0 { 0 } else { oct_val(b, p, n - 1) * 8 + (b[p + n - 1] - 48) } }
/// k digits, then not a digit or the limit
pub proof fn lemma_hex_run(b: Seq<u8>, p: int, max: int, k: int)
    requires 0 <= p, 0 <= k <= max, p + k <= b.len(), forall|i: int| p <= i < p + k ==> is_hex(#[trigger] b[i]), k == max || p + k == b.len() || !is_hex(b[p + k]),
    ensures hex_run(b, p, max) == k,
    decreases max
{ if k > 0 { assert(is_hex(b[p])); lemma_hex_run(b, p + 1, max - 1, k - 1); } }
pub proof fn lemma_oct_run(b: Seq<u8>, p: int, max: int, k: int)
    requires 0 <= p, 0 <= k <= max, p + k <= b.len(), forall|i: int| p <= i < p + k ==> is_oct(#[trigger] b[i]), k == max || p + k == b.len() || !is_oct(b[p + k]),
    ensures oct_run(b, p, max) == k,
    decreases max
{ if k > 0 { assert(is_oct(b[p])); lemma_oct_run(b, p + 1, max - 1, k - 1); } }
pub proof fn lemma_hex_bounds(b: Seq<u8>, p: int, max: int)
    requires 0 <= p <= b.len(),
    ensures 0 <= hex_run(b, p, max) <= b.len() - p, max >= 0 ==> hex_run(b, p, max) <= max, forall|i: int| p <= i < p + hex_run(b, p, max) ==> is_hex(#[trigger] b[i]),
    decreases max
{ if !(max <= 0 || p < 0 || p >= b.len() || !is_hex(b[p])) { lemma_hex_bounds(b, p + 1, max - 1); } }
pub proof fn lemma_oct_bounds(b: Seq<u8>, p: int, max: int)
    requires 0 <= p <= b.len(),
    ensures 0 <= oct_run(b, p, max) <= b.len() - p, max >= 0 ==> oct_run(b, p, max) <= max, forall|i: int| p <= i < p + oct_run(b, p, max) ==> is_oct(#[trigger] b[i]),
    decreases max
{ if !(max <= 0 || p < 0 || p >= b.len() || !is_oct(b[p])) { lemma_oct_bounds(b, p + 1, max - 1); } }
pub proof fn lemma_hex_val(b: Seq<u8>, p: int, n: int)
    requires 0 <= p, 0 <= n, p + n <= b.len(), forall|i: int| p <= i < p + n ==> is_hex(#[trigger] b[i]),
    ensures 0 <= hex_val(b, p, n), n <= 0 ==> hex_val(b, p, n) < 1, n <= 1 ==> hex_val(b, p, n) < 16, n <= 2 ==> hex_val(b, p, n) < 256, n <= 3 ==> hex_val(b, p, n) < 0x1000, n <= 4 ==> hex_val(b, p, n) < 0x10000, n <= 5 ==> hex_val(b, p, n) < 0x100000, n <= 6 ==> hex_val(b, p, n) < 0x1000000,
    decreases n
{ if n > 0 { lemma_hex_val(b, p, n - 1); assert(is_hex(b[p + n - 1])); } }
pub proof fn lemma_oct_val(b: Seq<u8>, p: int, n: int)
    requires 0 <= p, 0 <= n, p + n <= b.len(), forall|i: int| p <= i < p + n ==> is_oct(#[trigger] b[i]),
    ensures 0 <= oct_val(b, p, n), n <= 0 ==> oct_val(b, p, n) < 1, n <= 1 ==> oct_val(b, p, n) < 8, n <= 2 ==> oct_val(b, p, n) < 64, n <= 3 ==> oct_val(b, p, n) < 512,
    decreases n
{ if n > 0 { lemma_oct_val(b, p, n - 1); assert(is_oct(b[p + n - 1])); } }
pub proof fn lemma_ascii1(c: char) requires (c as u32) < 128 ensures utf8(seq![c]) == seq![c as u8] { vstd::utf8::is_ascii_chars_encode_utf8(seq![c]); }
pub proof fn lemma_rd_words()
    ensures utf8("begin"@) == seq![98u8, 101, 103, 105, 110], "begin".is_ascii(), utf8("end"@) == seq![101u8, 110, 100], "end".is_ascii(), "begin"@.len() == 5, "end"@.len() == 3,
{
    reveal_strlit("begin"); reveal_strlit("end");
    vstd::utf8::is_ascii_chars_encode_utf8("begin"@); vstd::utf8::is_ascii_chars_encode_utf8("end"@);
    assert(utf8("begin"@) =~= seq![98u8, 101, 103, 105, 110]); assert(utf8("end"@) =~= seq![101u8, 110, 100]);
}
/// a newline is the last byte of its line
pub proof fn lemma_nl_end(x: Buffer)
    requires x.input_ok(), x.line_ok(), x.pbeg < x.pcur, x.b()[x.pcur - 1] == 10,
    ensures x.pcur == x.pend,
{ reveal(lines_ok); let k = x.pcur - 1; assert(x.ls()[x.lastline as int].start <= k); assert(x.b()[k] == 10); }
pub proof fn lemma_ascii_valid(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] < 128,
    ensures valid_utf8(s),
    decreases s.len()
{
    reveal_with_fuel(valid_utf8, 2);
    if s.len() > 0 { let c = s[0]; lemma_ascii_valid(s.drop_first()); assert(c < 128 ==> c & 0x80 == 0) by (bit_vector); }
}
pub proof fn lemma_esc_flags(flags: usize)
    ensures (flags | 2) & 2 != 0, (flags | 2) & 1 == flags & 1, (flags | 1) & 1 != 0, (flags | 1) & 2 == flags & 2,
{
    assert((flags | 2) & 2 != 0 && (flags | 2) & 1 == flags & 1 && (flags | 1) & 1 != 0 && (flags | 1) & 2 == flags & 2) by (bit_vector);
}
pub open spec fn surrogate(x: int) -> bool { 0xd800 <= x < 0xe000 }
pub open spec fn skip_sp(b: Seq<u8>, p: int, end: int) -> int
    decreases end - p
{ if p < end && 0 <= p < b.len() && is_space(b[p]) { skip_sp(b, p + 1, end) } else { p } }
pub open spec fn ocat(t: Seq<u8>, x: Option<(Seq<u8>, int)>) -> Option<(Seq<u8>, int)> { match x { Some((u, e)) => Some((t + u, e)), None => None } }
/// the code points of \u{...} from p on: their UTF-8 and where the list ends; None if it is malformed
pub open spec fn ulist(b: Seq<u8>, p: int, end: int, term: Option<u8>, first: bool) -> Option<(Seq<u8>, int)>
    decreases end - p
{
    if p < 0 || p >= end || end > b.len() { None }
    else if b[p] == 125 { Some((Seq::<u8>::empty(), p + 1)) }
    else if term == Some(b[p]) || (term is None && !first) { None }
    else {
        let n = hex_run(b, p, end - p);
        let v = hex_val(b, p, n);
        let q = skip_sp(b, p + n, end);
        if !(1 <= n <= 6) || v > 0x10ffff || surrogate(v) || q <= p || q > end { None } else { ocat(utf8(seq![v as char]), ulist(b, q, end, term, false)) }
    }
}
/// what follows \u, at p: four digits, or a list of code points in braces
pub open spec fn uni(b: Seq<u8>, p: int, end: int, term: Option<u8>) -> Option<(Seq<u8>, int)> {
    if 0 <= p < end && end <= b.len() && b[p] == 123 { ulist(b, skip_sp(b, p + 1, end), end, term, true) }
    else { let n = hex_run(b, p, 4); let v = hex_val(b, p, n); if n == 4 && v <= 0x10ffff && !surrogate(v) { Some((utf8(seq![v as char]), p + 4)) } else { None } }
}
pub proof fn lemma_part_new(m: Lexer, o: Lexer, u: Option<(Seq<u8>, int)>)
    requires !m.grew(o), m.tokenbuf == o.tokenbuf,
    ensures m.part(o, u, u),
{ assert(m.tail(o) =~= Seq::<u8>::empty()); assert(m.tokenbuf.bytes.raw@ =~= o.tokenbuf.bytes.raw@ + m.tail(o)); match u { Some((t, e)) => { assert(m.tail(o) + t =~= t); } None => {} } }
pub proof fn lemma_part_end(m: Lexer, o: Lexer, u: Option<(Seq<u8>, int)>, e: int)
    requires m.part(o, u, Some((Seq::<u8>::empty(), e))),
    ensures m.grew(o) ==> u is None, !m.grew(o) ==> u == Some((m.tail(o), e)) && m.kept(o),
{ assert(m.tail(o) + Seq::<u8>::empty() =~= m.tail(o)); }
pub proof fn lemma_part_step(n: Lexer, m: Lexer, o: Lexer, u: Option<(Seq<u8>, int)>, t: Seq<u8>, x: Option<(Seq<u8>, int)>)
    requires m.nerr() >= o.nerr(), n.nerr() >= m.nerr(),
    ensures m.part(o, u, ocat(t, x)) && n.nerr() == m.nerr() && n.tokenbuf.bytes.raw@ == m.tokenbuf.bytes.raw@ + t ==> n.part(o, u, x), m.part(o, u, None) ==> u is None,
{
    if m.part(o, u, ocat(t, x)) && n.nerr() == m.nerr() && n.tokenbuf.bytes.raw@ == m.tokenbuf.bytes.raw@ + t && !m.grew(o) {
        assert(n.tail(o) =~= m.tail(o) + t);
        assert(n.tokenbuf.bytes.raw@ =~= o.tokenbuf.bytes.raw@ + n.tail(o));
        match x { Some((v, e)) => { assert(m.tail(o) + (t + v) =~= n.tail(o) + v); } None => {} }
    }
}
pub proof fn lemma_skip_sp(b: Seq<u8>, p: int, end: int)
    requires 0 <= p <= end <= b.len(),
    ensures p <= skip_sp(b, p, end) <= end,
    decreases end - p
{ if p < end && is_space(b[p]) { lemma_skip_sp(b, p + 1, end); } }
/// the escape sequence that follows a backslash, at p: its value and where it ends; None if it is malformed
pub open spec fn esc(b: Seq<u8>, p: int, end: int, meta: bool, ctrl: bool) -> Option<(u8, int)>
    decreases end - p
{
    if p < 0 || p >= end || end > b.len() { None } else {
        let c = chr(b, p, end);
        let n = adv(b, p, end);
        if c == 110 { Some((10u8, n)) }
        else if c == 116 { Some((9u8, n)) }
        else if c == 114 { Some((13u8, n)) }
        else if c == 102 { Some((12u8, n)) }
        else if c == 118 { Some((11u8, n)) }
        else if c == 97 { Some((7u8, n)) }
        else if c == 101 { Some((27u8, n)) }
        else if c == 98 { Some((8u8, n)) }
        else if c == 115 { Some((32u8, n)) }
        else if is_oct(c) { let k = oct_run(b, p, 3); Some(((oct_val(b, p, k) % 256) as u8, p + k)) }
        else if c == 120 { let k = hex_run(b, n, 2); if k == 0 { None } else { Some((hex_val(b, n, k) as u8, n + k)) } }
        else if c == 77 {
            if meta || n >= end || b[n] != 45 || n + 1 >= end { None } else {
                let c2 = chr(b, n + 1, end);
                let n2 = adv(b, n + 1, end);
                if c2 == 92 { if n2 < end && (b[n2] == 117 || b[n2] == 85) { None } else { match esc(b, n2, end, true, ctrl) { Some((v, e)) => Some((v | 0x80, e)), None => None } } }
                else if c2 >= 128 || (is_ctl(c2) && esc_code(MaybeByte::Some(c2)) is None) { None }
                else { Some((c2 | 0x80, n2)) }
            }
        }
        else if c == 67 || c == 99 {
            let m = if c == 67 { n + 1 } else { n };
            if ctrl || (c == 67 && (n >= end || b[n] != 45)) || m >= end { None } else {
                let c2 = chr(b, m, end);
                let n2 = adv(b, m, end);
                if c2 == 92 { if n2 < end && (b[n2] == 117 || b[n2] == 85) { None } else { match esc(b, n2, end, meta, true) { Some((v, e)) => Some((v & 0x9f, e)), None => None } } }
                else if c2 == 63 { Some((127u8, n2)) }
                else if c2 >= 128 || (is_ctl(c2) && esc_code(MaybeByte::Some(c2)) is None) { None }
                else { Some((c2 & 0x9f, n2)) }
            }
        }
        else { Some((c, n)) }
    }
}
/// end of the line that holds p
pub open spec fn eol(b: Seq<u8>, p: int) -> int
    decreases b.len() - p
{ if p < 0 || p >= b.len() { b.len() as int } else if b[p] == 10 { p + 1 } else { eol(b, p + 1) } }
pub proof fn lemma_eol(x: Buffer, p: int)
    requires x.input_ok(), x.line_ok(), x.pbeg <= p < x.pend,
    ensures eol(x.b(), p) == x.pend,
    decreases x.pend - p
{
    lemma_last_line(x);
    assert(p < x.pend - 1 ==> x.b()[p] != 10) by { reveal(lines_ok); assert(x.ls()[x.lastline as int].start <= p); }
    if p < x.pend - 1 { lemma_eol(x, p + 1); } else if x.b()[p] != 10 { assert(eol(x.b(), p + 1) == x.b().len()); }
}
/// a character of a squiggly here document is seen: the smallest indentation so far, and that of the current line (-1 after its first non-blank)
pub open spec fn ind_step(indent: int, line: int, c: MaybeByte) -> (int, int) {
    if c == MaybeByte::Some(10) { (indent, 0) }
    else if line == -1 { (indent, -1) }
    else if c == MaybeByte::Some(32) { (indent, line + 1) }
    else if c == MaybeByte::Some(9) { (indent, line - line % 8 + 8) }
    else { (if indent > line { line } else { indent }, -1) }
}
/// the smallest indentation once the line that goes on at p has been seen, too (the column there is line, or -1 behind its first non-blank)
pub open spec fn ind_line(b: Seq<u8>, p: int, ind: int, line: int) -> int decreases b.len() - p {
    if line == -1 || p < 0 || p >= b.len() || b[p] == 10 || is_crlf(b, p, b.len() as int) { ind }
    else if b[p] == 32 { ind_line(b, p + 1, ind, line + 1) }
    else if b[p] == 9 { ind_line(b, p + 1, ind, line - line % 8 + 8) }
    else if ind > line { line } else { ind }
}
pub proof fn lemma_ind_pos(b: Seq<u8>, p: int, ind: int, line: int)
    requires ind >= 0, line >= -1,
    ensures ind_line(b, p, ind, line) >= 0,
    decreases b.len() - p
{ if line != -1 && 0 <= p < b.len() { if b[p] == 32 { lemma_ind_pos(b, p + 1, ind, line + 1); } else if b[p] == 9 { lemma_ind_pos(b, p + 1, ind, line - line % 8 + 8); } } }
pub open spec fn blank_ch(c: MaybeByte) -> bool { c == MaybeByte::Some(32) || c == MaybeByte::Some(9) }
pub proof fn lemma_ind_done(b: Seq<u8>, p: int, ind: int) ensures ind_line(b, p, ind, -1) == ind { }
/// nothing but the line end is left
pub proof fn lemma_ind_eol(b: Seq<u8>, p: int, ind: int, line: int) requires p >= b.len() || b[p] == 10 || is_crlf(b, p, b.len() as int) ensures ind_line(b, p, ind, line) == ind { }
pub proof fn lemma_ind_zero(b: Seq<u8>, p: int, line: int) requires line >= -1 ensures ind_line(b, p, 0, line) == 0 decreases b.len() - p { if line != -1 && 0 <= p < b.len() && b[p] == 32 { lemma_ind_zero(b, p + 1, line + 1); } else if line != -1 && 0 <= p < b.len() && b[p] == 9 { lemma_ind_zero(b, p + 1, line - line % 8 + 8); } }
/// the character c at p of a line that ends at end is seen
pub proof fn lemma_ind_line(b: Seq<u8>, p: int, end: int, ind: int, line: int, c: MaybeByte, n: (int, int))
    requires 0 <= p < end <= b.len(), end == eol(b, p), c == MaybeByte::Some(chr(b, p, end)), n == ind_step(ind, line, c), line >= -1,
    ensures blank_ch(c) ==> ind_line(b, p + 1, n.0, n.1) == ind_line(b, p, ind, line), !blank_ch(c) ==> n.0 == ind_line(b, p, ind, line) && (c == MaybeByte::Some(10) || n.1 == -1),
{ if p + 1 < b.len() && b[p] == 13 && b[p + 1] == 10 { assert(eol(b, p + 1) == p + 2); assert(eol(b, p) == p + 2); } }
/// the byte c at q of the line [p, end), before a final CRLF
pub proof fn lemma_ind_char(b: Seq<u8>, p: int, q: int, end: int, ind: int, line: int, c: MaybeByte, n: (int, int))
    requires 0 <= p <= q < end <= b.len(), end == eol(b, p), q + 2 == end ==> !is_crlf(b, q, end), c == MaybeByte::Some(b[q]), n == ind_step(ind, line, c), line >= -1,
    ensures b[q] == 10 ==> n.0 == ind_line(b, q, ind, line), b[q] != 10 ==> ind_line(b, q + 1, n.0, n.1) == ind_line(b, q, ind, line), q + 1 < end ==> b[q] != 10, q > p ==> b[q - 1] != 10,
{
    lemma_eol_mid(b, p, q); if is_crlf(b, q, end) { lemma_eol_mid(b, p, q + 1); }
    if b[q] != 10 { lemma_ind_line(b, q, end, ind, line, c, n); if !blank_ch(c) { lemma_ind_done(b, q + 1, n.0); } } else { lemma_ind_line(b, q, end, ind, line, c, n); }
}
pub proof fn lemma_eol_last(b: Seq<u8>, p: int)
    requires 0 <= p < b.len(),
    ensures p < eol(b, p) <= b.len(), b[eol(b, p) - 1] == 10 || eol(b, p) == b.len(),
    decreases b.len() - p
{ if b[p] != 10 && p + 1 < b.len() { lemma_eol_last(b, p + 1); } else if b[p] != 10 { assert(eol(b, p + 1) == p + 1); } }
pub proof fn lemma_eol_mid(b: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q < b.len(), q < eol(b, p),
    ensures eol(b, q) == eol(b, p), forall|j: int| p <= j < q ==> #[trigger] b[j] != 10, b[q] == 10 ==> eol(b, q) == q + 1,
    decreases q - p
{ if p < q { assert(b[p] != 10); lemma_eol_mid(b, p + 1, q); } }
/// how a literal is read: x = it interpolates, qw = a word list, ind = an indentable here document
pub struct StrK { pub x: bool, pub qw: bool, pub ind: bool, pub term: u8, pub paren: Option<u8> }
pub open spec fn sesc(b: Seq<u8>, n: int, end: int, k: StrK, nest: int) -> Option<(Seq<u8>, int, int, bool)> {
    let d = chr(b, n, end);
    let m = adv(b, n, end);
    if n >= end { None }
    else if d == 10 { if k.qw { Some((seq![10u8], m, nest, false)) } else if k.x { Some((Seq::<u8>::empty(), m, nest, k.ind)) } else { Some((seq![92u8, 10u8], m, nest, false)) } }
    else if d == 92 { Some((seq![92u8], m, nest, false)) }
    else if d == 117 { if k.x { match uni(b, m, end, Some(k.term)) { Some((t, e)) => Some((t, e, nest, false)), None => None } } else { Some((seq![92u8, 117u8], m, nest, false)) } }
    else if d >= 128 && !k.x { Some((seq![92u8, d], m, nest, false)) }
    else if k.x { match esc(b, n, end, false, false) { Some((v, e)) => Some((seq![v], e, nest, false)), None => None } }
    else if k.qw && is_space(d) { Some((seq![d], m, nest, false)) }
    else if d != k.term && k.paren != Some(d) { Some((seq![92u8], n, nest, false)) }
    else { Some((seq![d], m, nest, false)) }
}
/// one step through a string body at p: the bytes it contributes, where it ends, the nesting of brackets after it, and whether the body stops there; None if malformed
pub open spec fn sstep(b: Seq<u8>, p: int, k: StrK, nest: int) -> Option<(Seq<u8>, int, int, bool)> {
    let end = eol(b, p);
    let c = chr(b, p, end);
    let n = adv(b, p, end);
    if k.paren == Some(c) { Some((seq![c], n, nest + 1, false)) }
    else if c == k.term { if nest == 0 { Some((Seq::<u8>::empty(), p, nest, true)) } else { Some((seq![c], n, nest - 1, false)) } }
    else if k.x && c == 35 && n < end && (b[n] == 36 || b[n] == 64 || b[n] == 123) { Some((Seq::<u8>::empty(), p, nest, true)) }
    else if c == 92 { sesc(b, n, end, k, nest) }
    else if k.qw && is_space(c) { Some((Seq::<u8>::empty(), p, nest, true)) }
    else { Some((seq![c], n, nest, false)) }
}
/// the value of a string body from p on, and where it stops
pub open spec fn sdec(b: Seq<u8>, p: int, k: StrK, nest: int) -> Option<(Seq<u8>, int)>
    decreases b.len() - p
{
    if p < 0 || p >= b.len() { None } else {
        match sstep(b, p, k, nest) { None => None, Some((t, q, n, stop)) => if stop { Some((t, q)) } else if q <= p || q > b.len() { None } else { ocat(t, sdec(b, q, k, n)) } }
    }
}
/// a piece that starts with # is not an interpolation
pub open spec fn sbody(b: Seq<u8>, p: int, k: StrK, nest: int) -> Option<(Seq<u8>, int)> {
    if k.x && 0 <= p < b.len() && chr(b, p, eol(b, p)) == 35 { ocat(seq![35u8], sdec(b, p + 1, k, nest)) } else { sdec(b, p, k, nest) }
}
/// ?c: v is the value of the character literal at p, which ends at e
pub open spec fn char_text(b: Seq<u8>, p: int, end: int, v: Seq<u8>, e: int) -> bool {
    &&& 0 <= p < end && end <= b.len()
    &&& if b[p] != 92 { p < e <= b.len() && v == b.subrange(p, e) && (b[p] < 128 ==> e == p + 1) }
        else if p + 1 < end && b[p + 1] == 117 { uni(b, p + 2, end, None) == Some((v, e)) }
        else if p + 1 < end && b[p + 1] >= 128 { p + 1 < e <= b.len() && v == b.subrange(p + 1, e) }
        else { match esc(b, p + 1, end, false, false) { Some((c, f)) => v == seq![c] && e == f, None => false } }
}
pub open spec fn str_k(func: usize, term: u8, paren: Option<u8>) -> StrK { StrK { x: func & 2 != 0, qw: func & 8 != 0, ind: func & 0x20 != 0, term: term, paren: paren } }
/// a here document: how its text is read (k.x: it interpolates), its identifier, and whether its lines are handed over one by one
pub struct Hd { pub k: StrK, pub eos: Seq<u8>, pub sq: bool }
/// h is the here document whose << ends at p, on a line that ends at end; its identifier is at `at`
pub open spec fn hd_open(b: Seq<u8>, p: int, end: int, h: HeredocLiteral, at: int) -> bool {
    let m = if b[p] == 45 || b[p] == 126 { p + 1 } else { p };
    let e = at + h.length;
    &&& p <= m < end
    &&& (h.func & 0x20 != 0) == (m > p) && (h.func & 2 == 0) == (b[m] == 39) && h.func & 5 == 0 && h.func & 8 == 0
    &&& if b[m] == 39 || b[m] == 34 || b[m] == 96 { h.quote == 1 && at == m + 1 && e < end && b[e] == b[m] && forall|i: int| at <= i < e ==> #[trigger] b[i] != b[m] && b[i] != 10 && b[i] != 13 }
        else { h.quote == 0 && at == m && at < e <= end && (forall|i: int| at <= i < e ==> is_identch(#[trigger] b[i])) && (e < end ==> !is_identch(b[e])) }
}
pub proof fn lemma_hd_func()
    ensures 0usize & 0x20 == 0, 0usize & 2 == 0, 0usize & 5 == 0, 0usize & 8 == 0, 0x20usize & 0x20 != 0, 0x20usize & 2 == 0, 0x20usize & 5 == 0, 0x20usize & 8 == 0,
        2usize & 0x20 == 0, 2usize & 2 != 0, 2usize & 5 == 0, 2usize & 8 == 0, 0x22usize & 0x20 != 0, 0x22usize & 2 != 0, 0x22usize & 5 == 0, 0x22usize & 8 == 0, 0usize | 0 == 0, 0usize | 2 == 2, 0x20usize | 0 == 0x20, 0x20usize | 2 == 0x22,
{
    assert(0usize & 0x20 == 0 && 0usize & 2 == 0 && 0usize & 5 == 0 && 0usize & 8 == 0 && 0x20usize & 0x20 != 0 && 0x20usize & 2 == 0 && 0x20usize & 5 == 0 && 0x20usize & 8 == 0) by (bit_vector);
    assert(2usize & 0x20 == 0 && 2usize & 2 != 0 && 2usize & 5 == 0 && 2usize & 8 == 0 && 0x22usize & 0x20 != 0 && 0x22usize & 2 != 0 && 0x22usize & 5 == 0 && 0x22usize & 8 == 0) by (bit_vector);
    assert(0usize | 0 == 0 && 0usize | 2 == 2 && 0x20usize | 0 == 0x20 && 0x20usize | 2 == 0x22) by (bit_vector);
}
/// the text of the line b[p..e): a CRLF reads as LF
pub open spec fn hd_line(b: Seq<u8>, p: int, e: int) -> Seq<u8> {
    if b[e - 1] == 10 { if e - 2 >= p && b[e - 2] == 13 { b.subrange(p, e - 2).push(10) } else { b.subrange(p, e) } }
    else if b[e - 1] == 13 { b.subrange(p, e - 1).push(10) } else { b.subrange(p, e) }
}
pub open spec fn hd_term(b: Seq<u8>, p: int, h: Hd) -> bool { is_terminator_line(b, p, eol(b, p), h.eos, h.k.ind) }
/// v is the text of the here document from p on up to q, where its terminator line starts (ended), an interpolation starts, or, handed over one by one, a line ends
pub open spec fn hpiece(b: Seq<u8>, p: int, h: Hd, v: Seq<u8>, q: int, ended: bool) -> bool decreases b.len() - p {
    if p < 0 || p >= b.len() { false }
    else if !h.k.x {
        let e = eol(b, p);
        let w = hd_line(b, p, e);
        ||| h.sq && !ended && v == w && q == e
        ||| p < e < b.len() && (if hd_term(b, e, h) { ended && v == w && q == e } else { w.len() <= v.len() && v.subrange(0, w.len() as int) == w && hpiece(b, e, h, v.subrange(w.len() as int, v.len() as int), q, ended) })
    } else {
        match sdec(b, p, h.k, 0) {
            None => false,
            Some((t, s)) => {
                let e = eol(b, s);
                let w = t.push(10);
                ||| !ended && v == t && q == s && ((h.k.ind && s > p && s <= b.len() && b[s - 1] == 10) || (p <= s < b.len() && chr(b, s, e) != 10))
                ||| p <= s < b.len() && chr(b, s, e) == 10 && h.sq && !ended && v == w && q == e
                ||| p <= s < b.len() && chr(b, s, e) == 10 && p < e < b.len() && (if hd_term(b, e, h) { ended && v == w && q == e } else { w.len() <= v.len() && v.subrange(0, w.len() as int) == w && hpiece(b, e, h, v.subrange(w.len() as int, v.len() as int), q, ended) })
            },
        }
    }
}
/// a piece that starts with # is not an interpolation
pub open spec fn hfirst(b: Seq<u8>, p: int, h: Hd, v: Seq<u8>, q: int, ended: bool) -> bool {
    if h.k.x && 0 <= p < b.len() && b[p] == 35 { v.len() > 0 && v[0] == 35 && hpiece(b, p + 1, h, v.subrange(1, v.len() as int), q, ended) } else { hpiece(b, p, h, v, q, ended) }
}
pub proof fn lemma_h_first(b: Seq<u8>, p: int, h: Hd, x: Seq<u8>, p1: int, u: Seq<u8>, q: int, ended: bool)
    requires hd_start(b, p, h, x, p1), hpiece(b, p1, h, u, q, ended),
    ensures hfirst(b, p, h, x + u, q, ended),
{ if x.len() > 0 { assert((x + u).subrange(1, (x + u).len() as int) =~= u); } else { assert(x + u =~= u); } }
/// a # that does not start an interpolation is text
pub open spec fn hd_start(b: Seq<u8>, p: int, h: Hd, x: Seq<u8>, p1: int) -> bool { if h.k.x && 0 <= p < b.len() && b[p] == 35 { x == seq![35u8] && p1 == p + 1 } else { x.len() == 0 && p1 == p } }
/// acc was read from p0 on, p is next
#[verifier::opaque]
pub open spec fn hacc(b: Seq<u8>, p0: int, acc: Seq<u8>, p: int, h: Hd) -> bool { forall|v: Seq<u8>, q: int, ended: bool| #[trigger] hpiece(b, p, h, v, q, ended) ==> hpiece(b, p0, h, acc + v, q, ended) }
pub proof fn lemma_h_new(b: Seq<u8>, p: int, h: Hd)
    ensures hacc(b, p, Seq::empty(), p, h),
{ reveal(hacc); assert forall|v: Seq<u8>, q: int, ended: bool| #[trigger] hpiece(b, p, h, v, q, ended) implies hpiece(b, p, h, Seq::<u8>::empty() + v, q, ended) by { assert(Seq::<u8>::empty() + v =~= v); } }
/// a line of the body ends at e, with w as its text
pub open spec fn hd_nl(b: Seq<u8>, p: int, h: Hd, w: Seq<u8>, e: int) -> bool {
    0 <= p < e && e <= b.len() && if h.k.x { match sdec(b, p, h.k, 0) { Some((t, s)) => p <= s < b.len() && e == eol(b, s) && chr(b, s, e) == 10 && w =~= t.push(10), None => false } } else { e == eol(b, p) && w =~= hd_line(b, p, e) }
}
pub proof fn lemma_h_next(b: Seq<u8>, p0: int, acc: Seq<u8>, p: int, h: Hd, w: Seq<u8>, e: int)
    requires hacc(b, p0, acc, p, h), hd_nl(b, p, h, w, e), e < b.len(), !hd_term(b, e, h),
    ensures hacc(b, p0, acc + w, e, h),
{
    reveal(hacc);
    assert forall|v: Seq<u8>, q: int, ended: bool| #[trigger] hpiece(b, e, h, v, q, ended) implies hpiece(b, p0, h, (acc + w) + v, q, ended) by {
        let u = w + v;
        assert(u.subrange(0, w.len() as int) =~= w); assert(u.subrange(w.len() as int, u.len() as int) =~= v);
        assert(hpiece(b, p, h, u, q, ended));
        assert(acc + u =~= (acc + w) + v);
    }
}
pub proof fn lemma_h_done(b: Seq<u8>, p0: int, acc: Seq<u8>, p: int, h: Hd, w: Seq<u8>, e: int)
    requires hacc(b, p0, acc, p, h), hd_nl(b, p, h, w, e), e < b.len(), hd_term(b, e, h),
    ensures hpiece(b, p0, h, acc + w, e, true),
{ reveal(hacc); assert(hpiece(b, p, h, w, e, true)); }
pub proof fn lemma_h_line(b: Seq<u8>, p0: int, acc: Seq<u8>, p: int, h: Hd, w: Seq<u8>, e: int)
    requires hacc(b, p0, acc, p, h), hd_nl(b, p, h, w, e), h.sq,
    ensures hpiece(b, p0, h, acc + w, e, false),
{ reveal(hacc); assert(hpiece(b, p, h, w, e, false)); }
pub proof fn lemma_h_stop(b: Seq<u8>, p0: int, acc: Seq<u8>, p: int, h: Hd, t: Seq<u8>, s: int)
    requires hacc(b, p0, acc, p, h), h.k.x, 0 <= p < b.len(), sdec(b, p, h.k, 0) == Some((t, s)), (h.k.ind && s > p && s <= b.len() && b[s - 1] == 10) || (p <= s < b.len() && chr(b, s, eol(b, s)) != 10),
    ensures hpiece(b, p0, h, acc + t, s, false),
{ reveal(hacc); assert(hpiece(b, p, h, t, s, false)); }
pub open spec fn hd_tail(r: Seq<u8>, x: Seq<u8>) -> Seq<u8> { r.subrange(x.len() as int, r.len() as int) }
pub open spec fn hd_got(r: Seq<u8>, x: Seq<u8>) -> bool { x.len() <= r.len() && r == x + hd_tail(r, x) }
pub proof fn lemma_hd_tail(r: Seq<u8>, x: Seq<u8>, u: Seq<u8>)
    requires hd_got(r, x),
    ensures hd_got(r + u, x), hd_tail(r + u, x) == hd_tail(r, x) + u, r + u == x + (hd_tail(r, x) + u),
{ assert(hd_tail(r + u, x) =~= hd_tail(r, x) + u); assert(r + u =~= x + (hd_tail(r, x) + u)); }
impl Lexer {
    /// lines are read in the order they are written
    pub open spec fn in_order(&self) -> bool { self.buffer.in_order() }
    pub open spec fn ind_ok(&self) -> bool { self.buffer.heredoc_indent >= 0 && -1 <= self.buffer.heredoc_line_indent <= 8 * self.buffer.pcur && 8 * self.len() < 0x7fff_ff00 }
    /// t is the smallest indentation once the rest of the current line has been seen
    pub open spec fn ind_to(&self, t: int) -> bool { if self.buffer.heredoc_indent == 0 { t == 0 } else { t == ind_line(self.b(), self.buffer.pcur as int, self.buffer.heredoc_indent as int, self.buffer.heredoc_line_indent as int) } }
    /// a squiggly here document goes on, at a place where its lines are read in order (a lone carriage return at the end of the file is left out)
    pub open spec fn sq_pre(&self) -> bool {
        &&& self.strterm is Some && (*self.strterm->Some_0) is HeredocLiteral && self.in_order() && self.ind_ok() && self.buffer.heredoc_indent > 0
        &&& ({ let f = (*self.strterm->Some_0)->HeredocLiteral_0.func; f & 0x20 != 0 && f & 5 == 0 && f & 8 == 0 && (f & 2 == 0 ==> !self.buffer.in_line()) })
        &&& self.len() == 0 || self.b()[self.len() - 1] != 13
    }
    pub open spec fn hd(&self) -> HeredocLiteral { (*self.strterm->Some_0)->HeredocLiteral_0 }
    /// where the identifier of the here document starts
    pub open spec fn hd_at(&self) -> int { self.buffer.ls()[self.hd().lastline as int].start + self.hd().offset }
    pub open spec fn hd_spec(&self) -> Hd { Hd { k: str_k(self.hd().func, 10, None), eos: self.b().subrange(self.hd_at(), self.hd_at() + self.hd().length), sq: self.buffer.heredoc_indent > 0 } }
    /// the text of a here document goes on, at a place where its lines are read in order (a # that ends the file is left out)
    pub open spec fn hd_pre(&self) -> bool {
        &&& self.strterm is Some && (*self.strterm->Some_0) is HeredocLiteral && self.in_order() && self.buffer.heredoc_indent >= 0
        &&& self.len() == 0 || self.b()[self.len() - 1] != 35
        &&& ({ let f = self.hd().func; f & 5 == 0 && f & 8 == 0 && (f & 2 == 0 ==> !self.buffer.in_line()) && (f & 0x20 != 0 ==> self.ind_ok()) && (self.buffer.heredoc_indent > 0 ==> f & 0x20 != 0) && self.buffer.heredoc_line_indent >= -1 })
    }
    /// a line starts here, and it can be the terminator (it is not the continuation of another one)
    pub open spec fn hd_fresh(&self) -> bool { self.buffer.heredoc_line_indent != -1 && !(self.buffer.in_line() && self.buffer.pcur > self.buffer.pbeg) && !is_crlf(self.b(), self.buffer.pcur as int, self.len()) }
    /// reading goes on behind the identifier of o's here document
    pub open spec fn hd_back(&self, o: Lexer) -> bool { self.buffer.lastline == o.hd().lastline && self.buffer.pcur == o.hd_at() + o.hd().length + o.hd().quote && !self.buffer.eofp && self.buffer.nextline == 0 }
    /// acc was read from p0 on, and the line that is being read, which is not the terminator, is next
    pub open spec fn hd_cur(&self, o: Lexer, p0: int, acc: Seq<u8>) -> bool { self.grew(o) || (self.in_order() && self.b() == o.b() && self.buffer.pbeg == self.buffer.ls()[self.buffer.lastline as int].start && self.buffer.pbeg < self.buffer.pend && hacc(self.b(), p0, acc, self.buffer.pbeg as int, o.hd_spec())) }
    /// x and acc were read, acc from p0 on, and c, which is not pushed back yet, is next
    pub open spec fn hd_more(&self, o: Lexer, p0: int, x: Seq<u8>, c: MaybeByte) -> bool {
        self.grew(o) || (c is Some && self.in_order() && self.b() == o.b() && 0 <= self.cpos(c) < self.len() && hd_got(self.tokenbuf.bytes.raw@, x) && hacc(self.b(), p0, hd_tail(self.tokenbuf.bytes.raw@, x), self.cpos(c), o.hd_spec())
            && (o.hd().func & 0x20 != 0 ==> -1 <= self.buffer.heredoc_line_indent <= 8 * self.cpos(c) && 8 * self.len() < 0x7fff_ff00))
    }
    /// v was read from p0 on, and the line that is being read is the terminator
    pub open spec fn hd_ended(&self, o: Lexer, p0: int, v: Seq<u8>) -> bool { self.grew(o) || (self.in_order() && self.b() == o.b() && self.buffer.pbeg == self.buffer.ls()[self.buffer.lastline as int].start && hpiece(self.b(), p0, o.hd_spec(), v, self.buffer.pbeg as int, true)) }
    /// the here document was read up to its first terminator line, an interpolation, or (squiggly) the end of a line
    pub open spec fn hd_read(&self, o: Lexer, r: i32) -> bool {
        ||| !o.hd_pre() || self.grew(o) || o.buffer.pcur >= o.len()
        ||| {
            let p = o.buffer.pcur as int;
            &&& r == Lexer::tSTRING_END ==> o.hd_fresh() && hd_term(o.b(), p, o.hd_spec()) && self.strterm is None && self.hd_back(o) && self.buffer.line_count == o.buffer.line_count + (if o.buffer.in_line() { 0int } else { 1 })
            &&& o.hd_fresh() && hd_term(o.b(), p, o.hd_spec()) ==> r == Lexer::tSTRING_END
            &&& r == Lexer::tSTRING_CONTENT ==> self.lval is Some && self.strterm is Some && ({
                let v = self.lval->Some_0.raw@;
                if (*self.strterm->Some_0) is StringLiteral { self.hd_back(o) && hfirst(o.b(), p, o.hd_spec(), v, self.buffer.ls()[self.buffer.line_count - 1].start as int, true) }
                else { self.strterm == o.strterm && (self.buffer.pcur == self.len() || (self.in_order() && hfirst(o.b(), p, o.hd_spec(), v, self.buffer.pcur as int, false))) }
            })
        }
    }
    /// the column the next character of a squiggly here document is at (-1: a non-blank precedes it)
    pub open spec fn sq_col(&self) -> int { if self.buffer.heredoc_line_indent == -1 && !(self.buffer.in_line() && self.buffer.pcur > self.buffer.pbeg) { 0 } else { self.buffer.heredoc_line_indent as int } }
    /// the smallest indentation, given the rest of the line that is read next
    pub open spec fn sq_ind(&self) -> int { ind_line(self.b(), self.buffer.pcur as int, self.buffer.heredoc_indent as int, self.sq_col()) }
    pub open spec fn str_pre(&self, func: usize, term: u8, nest: int) -> bool {
        &&& self.in_order() && func & 5 == 0 && 0 <= nest <= 0x7fff_ffff
        &&& func & 0x20 != 0 ==> term == 10 && self.ind_ok()
    }
    #[verifier::opaque]
    pub open spec fn str_inv(&self, o: Lexer, k: StrK, nest0: int, nest: int) -> bool {
        &&& self.nerr() >= o.nerr() && self.b() == o.b()
        &&& self.part(o, sdec(o.b(), o.buffer.pcur as int, k, nest0), sdec(self.b(), self.buffer.pcur as int, k, nest))
        &&& self.grew(o) || (self.in_order() && 0 <= nest <= nest0 + self.buffer.pcur - o.buffer.pcur)
    }
}
pub proof fn lemma_str_flags(f: usize)
    ensures f & 5 == 0 ==> f & 1 == 0 && f & 4 == 0, 0usize & 2 == 0, 0usize & 1 == 0,
{ assert(0usize & 2 == 0 && 0usize & 1 == 0) by (bit_vector); assert(f & 5 == 0 ==> f & 1 == 0 && f & 4 == 0) by (bit_vector); }
/// crossing to the next line does not move the position
pub proof fn lemma_in_order(n: Buffer, m: Buffer)
    requires m.wf(), n.input == m.input, m.nextline == 0 && m.lastline + 1 == m.line_count && !m.eofp, m.in_line() || n.crossed(m), n.lastline < n.ls().len(), m.in_line() ==> n.same_line(m),
    ensures n.lastline + 1 == n.line_count, n.next_from(m) == m.pcur,
{ reveal(lines_ok); if !m.in_line() { let i = m.lastline as int; let j = n.lastline as int; assert(j == i + 1); assert(n.ls()[j].start == n.ls()[i].end); } }
/// m steps to n
pub open spec fn str_to(n: Lexer, m: Lexer, k: StrK, nest: int, nest2: int) -> bool {
    match sstep(m.b(), m.buffer.pcur as int, k, nest) {
        Some((t, q, k2, stop)) => !stop && q > m.buffer.pcur && n.nerr() == m.nerr() && n.tokenbuf.bytes.raw@ =~= m.tokenbuf.bytes.raw@ + t && n.buffer.pcur == q && nest2 == k2 && n.in_order(),
        None => n.grew(m),
    }
}
pub open spec fn str_ends(n: Lexer, m: Lexer, k: StrK, nest: int) -> bool { match sstep(m.b(), m.buffer.pcur as int, k, nest) { Some((t, q, k2, stop)) => stop && t.len() == 0 && n.buffer.pcur == q, None => false } }
pub open spec fn str_adds(n: Lexer, m: Lexer, t: Seq<u8>, q: int) -> bool { q > m.buffer.pcur && n.nerr() == m.nerr() && n.tokenbuf.bytes.raw@ =~= m.tokenbuf.bytes.raw@ + t && n.buffer.pcur == q && n.in_order() }
pub proof fn lemma_str_cases(n: Lexer, m: Lexer, k: StrK, nest: int, nest2: int, end: int)
    requires end == eol(m.b(), m.buffer.pcur as int),
    ensures
        ({ let b = m.b(); let p = m.buffer.pcur as int; let c = chr(b, p, end); let q = adv(b, p, end); let d = chr(b, q, end); let e = adv(b, q, end);
        &&& k.paren == Some(c) && str_adds(n, m, seq![c], q) && nest2 == nest + 1 ==> str_to(n, m, k, nest, nest2)
        &&& k.paren != Some(c) && c == k.term && nest != 0 && str_adds(n, m, seq![c], q) && nest2 == nest - 1 ==> str_to(n, m, k, nest, nest2)
        &&& k.paren != Some(c) && c == k.term && nest == 0 && n.buffer.pcur == p ==> str_ends(n, m, k, nest)
        &&& k.paren != Some(c) && c != k.term && nest2 == nest ==> {
            &&& k.x && c == 35 && q < end && (b[q] == 36 || b[q] == 64 || b[q] == 123) && n.buffer.pcur == p ==> str_ends(n, m, k, nest)
            &&& c != 92 && !(k.x && c == 35 && q < end && (b[q] == 36 || b[q] == 64 || b[q] == 123)) && !(k.qw && is_space(c)) && str_adds(n, m, seq![c], q) ==> str_to(n, m, k, nest, nest2)
            &&& c != 35 && c != 92 && k.qw && is_space(c) && n.buffer.pcur == p ==> str_ends(n, m, k, nest)
            &&& c == 92 && q < end ==> {
                &&& d == 10 && k.qw && str_adds(n, m, seq![10u8], e) ==> str_to(n, m, k, nest, nest2)
                &&& d == 10 && !k.qw && k.x && !k.ind && str_adds(n, m, seq![], e) ==> str_to(n, m, k, nest, nest2)
                &&& d == 10 && !k.qw && k.x && k.ind && n.buffer.pcur == e ==> str_ends(n, m, k, nest)
                &&& d == 10 && !k.qw && !k.x && str_adds(n, m, seq![92u8, 10u8], e) ==> str_to(n, m, k, nest, nest2)
                &&& d == 92 && str_adds(n, m, seq![92u8], e) ==> str_to(n, m, k, nest, nest2)
                &&& d == 117 && !k.x && str_adds(n, m, seq![92u8, 117u8], e) ==> str_to(n, m, k, nest, nest2)
                &&& d == 117 && k.x && (match uni(b, e, end, Some(k.term)) { Some((t, f)) => str_adds(n, m, t, f), None => n.grew(m) }) ==> str_to(n, m, k, nest, nest2)
                &&& d != 10 && d != 92 && d != 117 ==> {
                    &&& !k.x && d >= 128 && str_adds(n, m, seq![92u8, d], e) ==> str_to(n, m, k, nest, nest2)
                    &&& k.x && (match esc(b, q, end, false, false) { Some((v, f)) => str_adds(n, m, seq![v], f), None => n.grew(m) }) ==> str_to(n, m, k, nest, nest2)
                    &&& !k.x && d < 128 && k.qw && is_space(d) && str_adds(n, m, seq![d], e) ==> str_to(n, m, k, nest, nest2)
                    &&& !k.x && d < 128 && !(k.qw && is_space(d)) && d != k.term && k.paren != Some(d) && str_adds(n, m, seq![92u8], q) ==> str_to(n, m, k, nest, nest2)
                    &&& !k.x && d < 128 && !(k.qw && is_space(d)) && (d == k.term || k.paren == Some(d)) && str_adds(n, m, seq![d], e) ==> str_to(n, m, k, nest, nest2)
                }
            }
        } }),
{ }
pub proof fn lemma_ocat_nil(x: Option<(Seq<u8>, int)>)
    ensures match x { Some((t, e)) => Seq::<u8>::empty() + t == t, None => true }, ocat(Seq::<u8>::empty(), x) == x,
{ match x { Some((t, e)) => { assert(Seq::<u8>::empty() + t =~= t); } None => {} } }
pub proof fn lemma_str_new(o: Lexer, k: StrK, nest: int)
    requires o.in_order(), nest >= 0,
    ensures o.str_inv(o, k, nest, nest),
{ reveal(Lexer::str_inv); lemma_part_new(o, o, sdec(o.b(), o.buffer.pcur as int, k, nest)); }
pub proof fn lemma_str_step(n: Lexer, m: Lexer, o: Lexer, k: StrK, nest0: int, nest: int, nest2: int)
    requires m.str_inv(o, k, nest0, nest), n.nerr() >= m.nerr(), n.b() == m.b(), 0 <= m.buffer.pcur < m.b().len(), m.buffer.pcur >= o.buffer.pcur, n.buffer.pcur <= n.b().len(),
        m.grew(o) || str_to(n, m, k, nest, nest2),
    ensures n.str_inv(o, k, nest0, nest2),
{
    reveal(Lexer::str_inv);
    let u = sdec(o.b(), o.buffer.pcur as int, k, nest0);
    let t = match sstep(m.b(), m.buffer.pcur as int, k, nest) { Some((t, q, k2, stop)) => t, None => Seq::empty() };
    lemma_part_step(n, m, o, u, t, sdec(n.b(), n.buffer.pcur as int, k, nest2));
}
pub proof fn lemma_str_stop(n: Lexer, m: Lexer, o: Lexer, k: StrK, nest0: int, nest: int)
    requires m.str_inv(o, k, nest0, nest), n.nerr() == m.nerr(), n.b() == m.b(), 0 <= m.buffer.pcur < m.b().len(), n.tokenbuf == m.tokenbuf,
        m.grew(o) || str_ends(n, m, k, nest),
    ensures n.whole(o, sdec(o.b(), o.buffer.pcur as int, k, nest0)),
{
    reveal(Lexer::str_inv);
    let u = sdec(o.b(), o.buffer.pcur as int, k, nest0);
    if !m.grew(o) {
        match sstep(m.b(), m.buffer.pcur as int, k, nest) { Some((t, q, k2, stop)) => { assert(t =~= Seq::<u8>::empty()); lemma_part_end(m, o, u, q); assert(n.tail(o) == m.tail(o)); } None => {} }
    }
}
impl Lexer {
    /// the digits of an escape: they do not leave the line
    pub open spec fn esc_at(&self) -> bool { self.buffer.stays() && !self.buffer.eofp }
    pub open spec fn only_cur(&self, o: Lexer) -> bool { self.nerr() >= o.nerr() && *self == (Lexer { tokenbuf: self.tokenbuf, diagnostics: self.diagnostics, buffer: Buffer { pcur: self.buffer.pcur, ptok: self.buffer.ptok, ..o.buffer }, ..o }) }
    pub open spec fn grew(&self, o: Lexer) -> bool { self.nerr() > o.nerr() }
    /// the text added since o
    pub open spec fn tail(&self, o: Lexer) -> Seq<u8> { self.tokenbuf.bytes.raw@.skip(o.tokenbuf.bytes.raw@.len() as int) }
    pub open spec fn kept(&self, o: Lexer) -> bool { self.tokenbuf.bytes.raw@ == o.tokenbuf.bytes.raw@ + self.tail(o) }
    /// a text was added, with x yet to come
    pub open spec fn part(&self, o: Lexer, u: Option<(Seq<u8>, int)>, x: Option<(Seq<u8>, int)>) -> bool { if self.grew(o) { u is None } else { self.kept(o) && u == ocat(self.tail(o), x) } }
    pub open spec fn whole(&self, o: Lexer, u: Option<(Seq<u8>, int)>) -> bool { match u { Some((t, e)) => !self.grew(o) && self.tokenbuf.bytes.raw@ == o.tokenbuf.bytes.raw@ + t && self.buffer.pcur == e, None => self.grew(o) } }
    /// one escape sequence was read: its value is the one it denotes, or an error was reported
    pub open spec fn esc_read(&self, o: Lexer, r: MaybeByte, meta: bool, ctrl: bool) -> bool {
        &&& self.buffer.same_line(o.buffer)
        &&& match esc(o.b(), o.buffer.pcur as int, o.buffer.pend as int, meta, ctrl) { Some((v, e)) => !self.grew(o) && r == MaybeByte::Some(v) && self.buffer.pcur == e && !self.buffer.eofp, None => self.grew(o) }
    }
}
// ---------- numeric literals ----------
pub mod vphas {
use super::*;
#[verifier::opaque]
pub open spec fn incl(t: Seq<u8>, x: u8) -> bool { t.contains(x) }
pub broadcast proof fn lemma_has_push(t: Seq<u8>, c: u8, x: u8) ensures #[trigger] incl(t.push(c), x) == (incl(t, x) || c == x)
{
    reveal(incl);
    let p = t.push(c);
    if incl(t, x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(p[i] == x); }
    if c == x { assert(p[t.len() as int] == x); }
    if incl(p, x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; if i < t.len() { assert(t[i] == x); } }
}
pub broadcast proof fn lemma_has_empty(x: u8) ensures !(#[trigger] incl(Seq::<u8>::empty(), x)) { reveal(incl); }
pub broadcast proof fn lemma_sub_push(b: Seq<u8>, s: int, e: int, x: u8) requires 0 <= s <= e < b.len(), x == b[e] ensures #[trigger] b.subrange(s, e).push(x) == b.subrange(s, e + 1) { assert(b.subrange(s, e).push(x) =~= b.subrange(s, e + 1)); }
pub broadcast proof fn lemma_cat_push(a: Seq<u8>, b: Seq<u8>, s: int, e: int, x: u8) requires 0 <= s <= e < b.len(), x == b[e] ensures #[trigger] (a + b.subrange(s, e)).push(x) == a + b.subrange(s, e + 1) { assert((a + b.subrange(s, e)).push(x) =~= a + b.subrange(s, e + 1)); }
pub broadcast group g_has { lemma_has_push, lemma_has_empty, lemma_sub_push, lemma_cat_push }
}
use vphas::incl;
/// written with a decimal point or an exponent
pub open spec fn frac(t: Seq<u8>) -> bool { incl(t, 46) || (!incl(t, 120) && !incl(t, 88) && (incl(t, 101) || incl(t, 69))) }
/// the kind a numeric literal's text denotes
pub open spec fn num_kind(t: Seq<u8>) -> i32 { if t.len() > 0 && t.last() == 105 { Lexer::tIMAGINARY } else if t.len() > 0 && t.last() == 114 { Lexer::tRATIONAL } else if frac(t) { Lexer::tFLOAT } else { Lexer::tINTEGER } }
pub open spec fn sfx_text(s: i8) -> Seq<u8> { (if s == 1 || s == 3 { seq![114u8] } else { seq![] }) + (if s == 2 || s == 3 { seq![105u8] } else { seq![] }) }
pub open spec fn sfx_at(b: Seq<u8>, p: int, q: int, s: i8) -> bool { q <= b.len() && ((s == 0 && q == p) || (s == 1 && q == p + 1 && b[p] == 114) || (s == 2 && q == p + 1 && b[p] == 105) || (s == 3 && q == p + 2 && b[p] == 114 && b[p + 1] == 105)) }
pub broadcast proof fn lemma_sfx_at(b: Seq<u8>, p: int, q: int, s: i8) requires 0 <= p, #[trigger] sfx_at(b, p, q, s) ensures b.subrange(p, q) == sfx_text(s) { assert(b.subrange(p, q) =~= sfx_text(s)); }
/// the kind of a literal is decided by its suffix, then by its digits
pub broadcast proof fn lemma_num_kind_b(tok: Seq<u8>, t: Seq<u8>, base: i32, r: i32)
    requires !incl(tok, 105), !incl(tok, 114), base == if frac(tok) { Lexer::tFLOAT } else { Lexer::tINTEGER }, #[trigger] sfx_ok(t, base, r),
    ensures num_kind(#[trigger] (tok + t)) == r,
{ lemma_num_kind(tok, t, r); }
pub proof fn lemma_num_loop(n: Lexer, m: Lexer, o: Lexer, prefix: u8, c: MaybeByte, nondigit: Option<MaybeByte>, is_float: bool)
    requires m.num_loop(o, prefix, c, nondigit, is_float), n.quiet(m), n.grew(m), n.wf(), n.step(m),
    ensures n.num_loop(o, prefix, c, nondigit, is_float),
{ reveal(Lexer::num_loop); }
pub proof fn lemma_num_end(n: Lexer, m: Lexer, o: Lexer, c: MaybeByte)
    requires m.num_at(o, c), n == (Lexer { buffer: n.buffer, ..m }), m.buffer.pb_done(n.buffer, c is Some), n.wf(), o.wf(),
    ensures n.step(o), n.buffer.stays(), n.buffer.pcur == m.cpos(c), n.buffer.pcur >= o.buffer.pcur - 1, n.buffer.ptok == o.buffer.ptok, n.buffer.same_line(o.buffer), n.b() == o.b(), n.buffer.nextline == 0,
        n.grew(o) || (n.diagnostics == o.diagnostics && n.tokenbuf.bytes.raw@ == o.b().subrange(o.buffer.pcur - 1, n.buffer.pcur as int)),
        !incl(n.tokenbuf.bytes.raw@, 105) && !incl(n.tokenbuf.bytes.raw@, 114),
{ }
pub proof fn lemma_num_kind(tok: Seq<u8>, t: Seq<u8>, r: i32)
    requires !incl(tok, 105), !incl(tok, 114), sfx_ok(t, if frac(tok) { Lexer::tFLOAT } else { Lexer::tINTEGER }, r),
    ensures num_kind(tok + t) == r,
{
    reveal(incl);
    if t == sfx_text(0) { assert(tok + t =~= tok); if tok.len() > 0 { assert(tok[tok.len() - 1] == tok.last()); } }
    else { assert((tok + t).last() == t.last()); if t == sfx_text(3) { assert(t[1] == 105); } }
}
/// an integer whose digits end at m's position and whose suffix ends at n's
pub proof fn lemma_int_end(n: Lexer, m: Lexer, o: Lexer, tok: Seq<u8>, suffix: i8)
    requires n.b() == m.b(), o.b() == m.b(), n.diagnostics == m.diagnostics, sfx_at(n.b(), m.buffer.pcur as int, n.buffer.pcur as int, suffix), 0 <= suffix <= 3, n.buffer.pcur <= n.len(),
        !incl(tok, 105), !incl(tok, 114), !frac(tok), 0 < o.buffer.pcur <= m.buffer.pcur + 1,
        m.grew(o) || tok == o.b().subrange(o.buffer.pcur - 1, m.buffer.pcur as int),
    ensures num_kind(tok + sfx_text(suffix)) == sfx_kind(suffix, Lexer::tINTEGER), m.buffer.pcur <= n.buffer.pcur,
        n.grew(o) || tok + sfx_text(suffix) == o.b().subrange(o.buffer.pcur - 1, n.buffer.pcur as int),
{
    lemma_sfx_at(n.b(), m.buffer.pcur as int, n.buffer.pcur as int, suffix);
    if !m.grew(o) { lemma_cat(n.b(), o.buffer.pcur - 1, m.buffer.pcur as int, n.buffer.pcur as int); }
    lemma_num_kind(tok, sfx_text(suffix), sfx_kind(suffix, Lexer::tINTEGER));
}
pub broadcast proof fn lemma_cat(b: Seq<u8>, x: int, y: int, z: int) requires 0 <= x <= y <= z <= b.len() ensures #[trigger] (b.subrange(x, y) + b.subrange(y, z)) == b.subrange(x, z) { assert(b.subrange(x, y) + b.subrange(y, z) =~= b.subrange(x, z)); }
pub proof fn lemma_cat3(b: Seq<u8>, a: Seq<u8>, x: int, y: int, z: int) requires 0 <= x <= y <= z <= b.len() ensures (a + b.subrange(x, y)) + b.subrange(y, z) == a + b.subrange(x, z) { assert((a + b.subrange(x, y)) + b.subrange(y, z) =~= a + b.subrange(x, z)); }
pub open spec fn sfx_kind(s: i8, base: i32) -> i32 { if s == 2 || s == 3 { Lexer::tIMAGINARY } else if s == 1 || s == 3 { Lexer::tRATIONAL } else { base } }
pub open spec fn sfx_ok(t: Seq<u8>, base: i32, r: i32) -> bool { (t == sfx_text(0) && r == base) || (t == sfx_text(1) && r == Lexer::tRATIONAL) || (t == sfx_text(2) && r == Lexer::tIMAGINARY) || (t == sfx_text(3) && r == Lexer::tIMAGINARY) }
pub proof fn lemma_sfx_bits()
    ensures (1i8 << 0) == 1, (1i8 << 1) == 2, 0i8 & 1 == 0, 1i8 & 1 == 1, 2i8 & 1 == 0, 3i8 & 1 == 1, 0i8 & 2 == 0, 1i8 & 2 == 0, 2i8 & 2 == 2, 3i8 & 2 == 2, 0i8 | 1 == 1, 0i8 | 2 == 2, 1i8 | 2 == 3, 3i8 & !1i8 == 2, 3i8 & !2i8 == 1, 2i8 & !2i8 == 0, 1i8 & !1i8 == 0, 0i8 & !1i8 == 0, 2i8 & !1i8 == 2, 0i8 & !2i8 == 0,
{
    assert((1i8 << 0) == 1 && (1i8 << 1) == 2) by (bit_vector);
    assert(0i8 & 1 == 0 && 1i8 & 1 == 1 && 2i8 & 1 == 0 && 3i8 & 1 == 1 && 0i8 & 2 == 0 && 1i8 & 2 == 0 && 2i8 & 2 == 2 && 3i8 & 2 == 2 && 0i8 | 1 == 1 && 0i8 | 2 == 2 && 1i8 | 2 == 3 && 3i8 & !1i8 == 2 && 3i8 & !2i8 == 1 && 2i8 & !2i8 == 0 && 1i8 & !1i8 == 0 && 0i8 & !1i8 == 0 && 2i8 & !1i8 == 2 && 0i8 & !2i8 == 0) by (bit_vector);
}
impl Lexer {
    /// position of the character c that was read last
    pub open spec fn cpos(&self, c: MaybeByte) -> int { if c is Some { back(self.b(), self.buffer.pcur as int, self.buffer.pbeg as int) } else { self.buffer.pcur as int } }
    /// behind a newline: at the end of its line, or in white space of the line that follows
    pub open spec fn nl_at(&self) -> bool {
        ||| self.buffer.pcur == self.buffer.pend && self.buffer.pbeg < self.buffer.pend
        ||| self.nl_next() && self.buffer.pbeg < self.buffer.pcur && self.b()[self.buffer.pcur - 1] != 10
    }
    pub open spec fn nl_read(&self, c: MaybeByte) -> bool {
        &&& c is Some ==> self.nl_next() && self.buffer.after(c->Some_0) && self.unread()
        &&& c is EndOfInput ==> (!self.buffer.eofp && self.nl_next()) || (self.buffer.eofp && self.buffer.ls()[self.buffer.lastline as int].start < self.buffer.ls()[self.buffer.lastline as int].end)
    }
    pub open spec fn nl_next(&self) -> bool {
        &&& self.buffer.prevline is Some && self.buffer.prevline->Some_0 < self.buffer.lastline && self.buffer.ls()[self.buffer.prevline->Some_0 as int].start < self.buffer.ls()[self.buffer.prevline->Some_0 as int].end
        &&& self.buffer.heredoc_end == 0 && self.buffer.ruby_sourceline >= 1
    }
    /// inside of a numeric literal that starts right before o's position; c was read last; without an error so far, everything before it is in the token buffer
    pub open spec fn num_at(&self, o: Lexer, c: MaybeByte) -> bool {
        &&& self.wf() && self.step(o) && self.buffer.same_line(o.buffer) && self.buffer.ptok == o.buffer.ptok && self.buffer.nextline == 0
        &&& c is Some ==> self.buffer.after(c->Some_0) && self.unread()
        &&& c is EndOfInput ==> self.buffer.eofp
        &&& self.cpos(c) >= o.buffer.pcur - 1
        &&& self.nerr() >= o.nerr()
        &&& self.grew(o) || (self.diagnostics == o.diagnostics && self.tokenbuf.bytes.raw@ == o.b().subrange(o.buffer.pcur - 1, self.cpos(c)))
        &&& !incl(self.tokenbuf.bytes.raw@, 105) && !incl(self.tokenbuf.bytes.raw@, 114)
    }
    #[verifier::opaque]
    pub open spec fn num_loop(&self, o: Lexer, prefix: u8, c: MaybeByte, nondigit: Option<MaybeByte>, is_float: bool) -> bool {
        &&& self.num_at(o, c)
        &&& nondigit is Some ==> nondigit->Some_0 is Some && self.cpos(c) >= o.buffer.pcur + 1
        &&& self.cpos(c) == o.buffer.pcur - 1 ==> c == MaybeByte::Some(prefix) && prefix != 43 && prefix != 45
        &&& is_float == frac(self.tokenbuf.bytes.raw@)
        &&& !incl(self.tokenbuf.bytes.raw@, 120) && !incl(self.tokenbuf.bytes.raw@, 88)
    }
    /// more of a numeric literal was read since o (where c0 was read last)
    pub open spec fn num_more(&self, o: Lexer, c0: MaybeByte, c: MaybeByte) -> bool {
        &&& self.wf() && self.step(o) && self.buffer.same_line(o.buffer) && self.buffer.ptok == o.buffer.ptok && self.buffer.nextline == 0
        &&& c is Some ==> self.buffer.after(c->Some_0) && self.unread()
        &&& c is EndOfInput ==> self.buffer.eofp
        &&& self.cpos(c) >= o.cpos(c0)
        &&& self.nerr() >= o.nerr()
        &&& self.tokenbuf.bytes.raw@ == o.tokenbuf.bytes.raw@ + o.b().subrange(o.cpos(c0), self.cpos(c))
        &&& incl(self.tokenbuf.bytes.raw@, 105) == incl(o.tokenbuf.bytes.raw@, 105) && incl(self.tokenbuf.bytes.raw@, 114) == incl(o.tokenbuf.bytes.raw@, 114) && incl(self.tokenbuf.bytes.raw@, 46) == incl(o.tokenbuf.bytes.raw@, 46)
        &&& incl(self.tokenbuf.bytes.raw@, 120) == incl(o.tokenbuf.bytes.raw@, 120) && incl(self.tokenbuf.bytes.raw@, 88) == incl(o.tokenbuf.bytes.raw@, 88) && incl(self.tokenbuf.bytes.raw@, 101) == incl(o.tokenbuf.bytes.raw@, 101) && incl(self.tokenbuf.bytes.raw@, 69) == incl(o.tokenbuf.bytes.raw@, 69)
    }
    /// the literal is complete: its text is the value, and the kind is the one its text denotes
    pub open spec fn num_done(&self, o: Lexer, r: i32) -> bool {
        ||| self.grew(o)
        ||| { &&& self.diagnostics == o.diagnostics && self.buffer.pcur > o.buffer.pcur - 1 && self.buffer.ptok == o.buffer.ptok
              &&& self.lval is Some && self.lval->Some_0.raw@ == o.b().subrange(o.buffer.pcur - 1, self.buffer.pcur as int) && r == num_kind(self.lval->Some_0.raw@) }
    }
}
// ---------- comments ----------
/// from # through the end of its line
pub open spec fn line_comment(b: Seq<u8>, s: int, e: int) -> bool { 0 <= s < e <= b.len() && b[s] == 35 && (b[e - 1] == 10 || e == b.len()) && forall|i: int| s <= i < e - 1 ==> #[trigger] b[i] != 10 }
pub open spec fn end_line(b: Seq<u8>, l: SourceLine) -> bool { l.start < l.end && b[l.start as int] == 61 && word_at(b, l.start + 1, seq![101u8, 110, 100], l.end as int) }
/// no line from m up to (but excluding) l is an =end line
pub open spec fn no_end(b: Seq<u8>, ls: Seq<SourceLine>, m: int, l: int) -> bool { forall|i: int| m <= i < l ==> !end_line(b, #[trigger] ls[i]) }
/// =begin starts line l0, at s
pub open spec fn block_from(b: Seq<u8>, ls: Seq<SourceLine>, s: int, l0: int) -> bool {
    &&& s == ls[l0].start || (l0 == 0 && s == 3 && bom(b))
    &&& s < ls[l0].end && b[s] == 61 && word_at(b, s + 1, seq![98u8, 101, 103, 105, 110], ls[l0].end as int)
}
/// from a =begin that starts line l0 through the end of the first =end line that follows it in reading order
pub open spec fn block_at(b: Seq<u8>, ls: Seq<SourceLine>, s: int, e: int, l0: int, m: int, l1: int) -> bool {
    &&& 0 <= l0 < m <= l1 < ls.len()
    &&& block_from(b, ls, s, l0)
    &&& no_end(b, ls, m, l1) && end_line(b, ls[l1]) && e == ls[l1].end
}
pub open spec fn block_comment(b: Seq<u8>, ls: Seq<SourceLine>, s: int, e: int) -> bool { exists|l0: int, m: int, l1: int| #[trigger] block_at(b, ls, s, e, l0, m, l1) }
pub open spec fn comment_ok(b: Seq<u8>, ls: Seq<SourceLine>, c: Comment) -> bool {
    ||| c.kind is Inline && line_comment(b, c.location.begin as int, c.location.end as int)
    ||| c.kind is Document && block_comment(b, ls, c.location.begin as int, c.location.end as int)
}
/// n is o followed by exact comments
#[verifier::opaque]
pub open spec fn added(n: Seq<Comment>, o: Seq<Comment>, b: Seq<u8>, ls: Seq<SourceLine>) -> bool { o.len() <= n.len() && n.subrange(0, o.len() as int) == o && forall|i: int| o.len() <= i < n.len() ==> comment_ok(b, ls, #[trigger] n[i]) }
pub proof fn lemma_added_none(o: Seq<Comment>, b: Seq<u8>, ls: Seq<SourceLine>) ensures added(o, o, b, ls) { reveal(added); assert(o.subrange(0, o.len() as int) =~= o); }
pub proof fn lemma_added(n: Seq<Comment>, o: Seq<Comment>, b: Seq<u8>, ls: Seq<SourceLine>, c: Comment)
    requires added(n, o, b, ls), comment_ok(b, ls, c),
    ensures added(n.push(c), o, b, ls),
{ reveal(added); let p = n.push(c); assert(p.subrange(0, o.len() as int) =~= n.subrange(0, o.len() as int)); assert forall|i: int| o.len() <= i < p.len() implies comment_ok(b, ls, #[trigger] p[i]) by { if i < n.len() { assert(p[i] == n[i]); } } }
/// the rest of a line that starts with # is a line comment
pub proof fn lemma_line_comment(x: Buffer, s: int)
    requires x.input_ok(), x.line_ok(), x.pbeg <= s < x.pend, x.b()[s] == 35,
    ensures line_comment(x.b(), s, x.pend as int),
{ lemma_last_line(x); reveal(lines_ok); assert forall|i: int| s <= i < x.pend - 1 implies #[trigger] x.b()[i] != 10 by { assert(x.ls()[x.lastline as int].start <= i); } }
pub open spec fn is_blank(b: Seq<u8>, p: int, end: int) -> bool { b[p] == 32 || b[p] == 9 || b[p] == 11 || b[p] == 12 || (b[p] == 13 && !is_crlf(b, p, end)) }
pub open spec fn skip_blank(b: Seq<u8>, p: int, end: int) -> int
    decreases end - p
{ if 0 <= p < end && end <= b.len() && is_blank(b, p, end) { skip_blank(b, p + 1, end) } else { p } }
impl Lexer {
    /// the next thing on the current line is a comment
    #[verifier::opaque]
    pub open spec fn at_comment(&self) -> bool {
        let q = skip_blank(self.b(), self.buffer.pcur as int, self.buffer.pend as int);
        self.strterm is None && self.buffer.nextline == 0 && !self.buffer.eofp && q < self.buffer.pend && self.b()[q] == 35
    }
    /// a comment that came next was recorded
    pub open spec fn comment_done(&self, o: Lexer) -> bool { !o.at_comment() || self.grew(o) || took(self.comments@, o) }
    /// only white space was read so far
    pub open spec fn only_blank(&self, o: Lexer) -> bool {
        &&& self.buffer.same_line(o.buffer) && self.buffer.nextline == o.buffer.nextline && self.buffer.eofp == o.buffer.eofp && self.comments == o.comments && self.b() == o.b()
        &&& skip_blank(o.b(), self.buffer.pcur as int, o.buffer.pend as int) == skip_blank(o.b(), o.buffer.pcur as int, o.buffer.pend as int)
    }
}
#[verifier::opaque]
pub open spec fn took(cs: Seq<Comment>, o: Lexer) -> bool {
    let q = skip_blank(o.b(), o.buffer.pcur as int, o.buffer.pend as int);
    cs.len() > o.comments@.len() && cs[o.comments@.len() as int].location == (Loc { begin: q as usize, end: o.buffer.pend })
}
/// what reading the character c does to the search for the next comment
pub proof fn lemma_blank_read(n: Lexer, m: Lexer, o: Lexer, c: MaybeByte)
    requires m.wf(), m.only_blank(o), m.comments == n.comments, n.buffer.read_one(m.buffer, c), n.b() == m.b(), n.buffer.ls() == m.buffer.ls(),
    ensures !o.at_comment() || (c == MaybeByte::Some(35) && n.buffer.same_line(o.buffer) && n.comments == o.comments && n.buffer.pcur - 1 == skip_blank(o.b(), o.buffer.pcur as int, o.buffer.pend as int)) || (c is Some && (c->Some_0 == 32 || c->Some_0 == 9 || c->Some_0 == 11 || c->Some_0 == 12 || c->Some_0 == 13) && n.only_blank(o)),
{ reveal(Lexer::at_comment); }
/// recording a line comment
pub proof fn lemma_take_line(x: Lexer, o: Lexer)
    requires x.wf(), x.buffer.pcur == x.buffer.pend, x.buffer.ptok >= x.buffer.pbeg, x.buffer.ptok < x.buffer.pend, x.b()[x.buffer.ptok as int] == 35, added(x.comments@, o.comments@, x.b(), x.buffer.ls()), x.same_src(o),
    ensures forall|c: Comment| c.location == (Loc { begin: x.buffer.ptok, end: x.buffer.pend }) && c.kind == comment_kind(x.b(), x.buffer.ptok as int, x.buffer.pend as int) ==> {
        &&& added(#[trigger] x.comments@.push(c), o.comments@, x.b(), x.buffer.ls())
        &&& x.comment_done(o) || (x.comments == o.comments && x.buffer.pend == o.buffer.pend && x.buffer.ptok == skip_blank(o.b(), o.buffer.pcur as int, o.buffer.pend as int)) ==> !o.at_comment() || x.grew(o) || took(x.comments@.push(c), o)
    },
{
    lemma_line_comment(x.buffer, x.buffer.ptok as int);
    reveal(took);
    assert forall|c: Comment| c.location == (Loc { begin: x.buffer.ptok, end: x.buffer.pend }) && c.kind == comment_kind(x.b(), x.buffer.ptok as int, x.buffer.pend as int) implies added(#[trigger] x.comments@.push(c), o.comments@, x.b(), x.buffer.ls()) by { lemma_added(x.comments@, o.comments@, x.b(), x.buffer.ls(), c); }
}
/// recording a block comment
pub proof fn lemma_take_block(x: Lexer, o: Lexer, s: int, l0: int, m: int)
    requires x.wf(), x.buffer.pcur == x.buffer.pend, added(x.comments@, o.comments@, x.b(), x.buffer.ls()), block_at(x.b(), x.buffer.ls(), s, x.buffer.pend as int, l0, m, x.buffer.lastline as int), x.comment_done(o),
    ensures forall|c: Comment| c.location.begin == s && c.location.end == x.buffer.pend && c.kind == comment_kind(x.b(), s, x.buffer.pend as int) ==> {
        &&& added(#[trigger] x.comments@.push(c), o.comments@, x.b(), x.buffer.ls())
        &&& !o.at_comment() || x.grew(o) || took(x.comments@.push(c), o)
    },
{
    reveal(took);
    let e = x.buffer.pend as int; let b = x.b();
    lemma_line_bounds(x.buffer, l0);
    lemma_lines_monotone(x.buffer.ls(), b, l0, x.buffer.lastline as int);
    let w = seq![98u8, 101, 103, 105, 110];
    assert(b.subrange(s + 1, s + 6) == w);
    assert(b[s + 1] == w[0] && b[s + 2] == w[1] && b[s + 3] == w[2] && b[s + 4] == w[3] && b[s + 5] == w[4]) by { let v = b.subrange(s + 1, s + 6); assert(v[0] == b[s + 1] && v[1] == b[s + 2] && v[2] == b[s + 3] && v[3] == b[s + 4] && v[4] == b[s + 5]); }
    assert forall|i: int| s <= i < s + 6 implies b[i] != 10 by { }
    assert(x.buffer.ls()[l0].start <= s) by { reveal(lines_ok); }
    lemma_word_in_line(b, x.buffer.ls(), l0, s, s + 6);
    assert(block_comment(b, x.buffer.ls(), s, e));
    assert(comment_kind(b, s, e) is Document);
    assert forall|c: Comment| c.location.begin == s && c.location.end == x.buffer.pend && c.kind == comment_kind(x.b(), s, x.buffer.pend as int) implies added(#[trigger] x.comments@.push(c), o.comments@, x.b(), x.buffer.ls()) by { lemma_added(x.comments@, o.comments@, x.b(), x.buffer.ls(), c); }
}
/// bytes other than newlines that follow a position of a line are on that line
pub proof fn lemma_word_in_line(b: Seq<u8>, ls: Seq<SourceLine>, l: int, s: int, e: int)
    requires lines_ok(ls, b), 0 <= l < ls.len(), ls[l].start <= s < ls[l].end, s <= e <= b.len(), forall|i: int| s <= i < e ==> b[i] != 10,
    ensures e <= ls[l].end,
{
    reveal(lines_ok);
    if e > ls[l].end {
        if l == ls.len() - 1 { assert(ls.last() == ls[l]); assert(false); }
        assert(b[ls[l].end - 1] == 10);
        assert(false);
    }
}
// ---------- names ----------
pub open spec fn num_tok(r: i32) -> bool { r == Lexer::tINTEGER || r == Lexer::tFLOAT || r == Lexer::tRATIONAL || r == Lexer::tIMAGINARY }
pub open spec fn name_tok(r: i32) -> bool { r == Lexer::tIDENTIFIER || r == Lexer::tCONSTANT || r == Lexer::tFID || r == Lexer::tIVAR || r == Lexer::tCVAR || r == Lexer::tGVAR || r == Lexer::tNTH_REF || r == Lexer::tBACK_REF || r == Lexer::tLABEL }
/// a token whose text is neither a number nor a name, and not a newline
pub open spec fn plain(r: i32) -> bool { r != Lexer::tNL && !num_tok(r) && !name_tok(r) }
/// no further identifier character follows
pub open spec fn name_end(b: Seq<u8>, p: int) -> bool { p >= b.len() || !is_identch(b[p]) }
/// the name b[s..e) is complete
pub open spec fn name_full(b: Seq<u8>, s: int, e: int) -> bool {
    let l = b[e - 1];
    if b[s] == 36 { if b[s + 1] == 45 { mb_ok(b, s + 2, e - s - 2) } else if is_digit(b[s + 1]) && b[s + 1] != 48 { e >= b.len() || !is_digit(b[e]) } else { is_identch(b[s + 1]) ==> name_end(b, e) } }
    else { l == 33 || l == 63 || l == 61 || name_end(b, e) }
}
impl Lexer {
    /// the value of the token is exactly its source text, and it is complete
    pub open spec fn name_ok(&self, r: i32, lval0: Option<Bytes>) -> bool {
        let (b, s, e) = (self.b(), self.buffer.ptok as int, self.buffer.pcur as int);
        &&& s < e && e <= b.len()
        &&& r != Lexer::tLABEL ==> (self.lval == lval0 || (self.lval is Some && self.lval->Some_0.raw@ == b.subrange(s, e))) && (name_tok(r) ==> name_full(b, s, e))
        &&& r == Lexer::tLABEL ==> s < e - 1 && b[e - 1] == 58 && self.lval is Some && self.lval->Some_0.raw@ == b.subrange(s, e - 1)
    }
    /// a number or a name that was read without an error: its value is its source text
    /// a piece of a string literal has the value its source denotes
    pub open spec fn str_text(&self, o: Lexer, r: i32, v: Seq<u8>) -> bool {
        r == Lexer::tSTRING_CONTENT && o.strterm is Some && (*o.strterm->Some_0) is StringLiteral ==> ({
            let l = (*o.strterm->Some_0)->StringLiteral_0;
            o.str_pre(l.func, l.term, l.nest as int) ==> self.grew(o) || self.buffer.pcur == self.len() || sbody(o.b(), o.buffer.pcur as int, str_k(l.func, l.term, l.paren), l.nest as int) == Some((v, self.buffer.pcur as int))
        })
    }
    pub open spec fn str_value(&self, o: Lexer, r: i32) -> bool { r == Lexer::tSTRING_CONTENT && o.strterm is Some && (*o.strterm->Some_0) is StringLiteral ==> self.lval is Some && self.str_text(o, r, self.lval->Some_0.raw@) }
    pub open spec fn text_ok(&self, o: Lexer, r: i32) -> bool {
        ||| self.grew(o)
        ||| { &&& num_tok(r) ==> self.lval_start is None && self.lval_end is None && self.buffer.ptok < self.buffer.pcur && self.lval is Some && self.lval->Some_0.raw@ == self.b().subrange(self.buffer.ptok as int, self.buffer.pcur as int) && r == num_kind(self.lval->Some_0.raw@)
              &&& name_tok(r) ==> self.lval_start is None && self.lval_end is None && self.name_ok(r, None) }
    }
}
@end
@file src/stack_state.rs all
@skip StackState::new
@file src/reserved_words/reserved_word.rs all
@file src/str_term.rs all
@derive HeredocLiteral Clone, Copy
@fn StringLiteral::new props=C05
@ensures
  r.nest == nest, r.func == func, r.paren == paren, r.term == term, r.heredoc_end == heredoc_end,
@fn HeredocLiteral::new props=C05
@ensures
  r.lastline == lastline, r.offset == offset, r.sourceline == sourceline, r.length == length, r.quote == quote, r.func == func,
@fn StrTerm::new_literal props=C05
@ensures
  r == StrTerm::StringLiteral(literal),
@fn StrTerm::new_heredoc props=C05
@ensures
  r == StrTerm::HeredocLiteral(heredoc),
@file $AST/src/error/messages/message_enum.rs all
@file src/error/level.rs all
@skip ToString_for_ErrorLevel
@file src/error/diagnostic.rs all rc
@skip impl_Diagnostic Diagnostics::take_inner Diagnostics::new
@fn Diagnostics::emit props=C05,C06
@ensures
  final(self).list@ == old(self).list@.push(diagnostic),
@file src/source/magic_comment.rs all
@derive MagicCommentKind Clone, PartialEq, Eq, Structural
@file src/token.rs
@take Token
@file src/parser/parse.rs
@take Lexer::*const
@skip Lexer::TOKEN_NAMES
@default Lexer mut
  requires
  old(self).wf(), // @C05 @C06
  ensures
  final(self).wf(), // @C05 @C06
  final(self).step(*old(self)), // @C05 @C06
@default Lexer ref
  requires
  self.wf(), // @C05 @C06
@defaultloop Lexer mut
  invariant self.wf(), self.step(*old(self)), // @C05 @C06
@file src/lexer/tokadd.rs all
@implextra trait TokAdd
  spec fn ta_pre(c: T) -> bool;
  spec fn ta_post(&self, n: &Self, c: T) -> bool;
@implextra TokAdd<MaybeByte> for Lexer
  open spec fn ta_pre(c: MaybeByte) -> bool { c is Some }
  open spec fn ta_post(&self, n: &Self, c: MaybeByte) -> bool { *n == (Lexer { tokenbuf: n.tokenbuf, ..*self }) && n.tokenbuf.bytes.raw@ == self.tokenbuf.bytes.raw@.push(c->Some_0) }
@implextra TokAdd<u8> for Lexer
  open spec fn ta_pre(c: u8) -> bool { true }
  open spec fn ta_post(&self, n: &Self, c: u8) -> bool { *n == (Lexer { tokenbuf: n.tokenbuf, ..*self }) && n.tokenbuf.bytes.raw@ == self.tokenbuf.bytes.raw@.push(c) }
@fn TokAdd::tokadd
@requires
  Self::ta_pre(c),
@ensures
  old(self).ta_post(&*final(self), c),
@fn <TokAdd<MaybeByte>_for_Lexer>::tokadd props=C05,C07,C08,C09
@fn <TokAdd<u8>_for_Lexer>::tokadd props=C05,C07,C08,C09
@file src/lexer/yylval.rs all mod=m_yylval
@fn Lexer::set_yylval_id props=C05,C09
@ensures
  *final(self) == (Lexer { lval: final(self).lval, ..*old(self) }),
  final(self).lval is Some && final(self).lval->Some_0.raw@ == utf8(id@),
@fn Lexer::set_yylval_literal props=C05,C08
@ensures
  *final(self) == (Lexer { lval: final(self).lval, ..*old(self) }),
  final(self).lval is Some && final(self).lval->Some_0.raw@ == value.bytes.raw@,
@fn Lexer::set_yylval_num props=C05
@ensures
  *final(self) == (Lexer { lval: final(self).lval, ..*old(self) }),
  final(self).lval is Some && final(self).lval->Some_0.raw@ == utf8(flags@),
@fn Lexer::set_yylval_str props=C05,C07,C14
@ensures
  *final(self) == (Lexer { lval: final(self).lval, ..*old(self) }),
  final(self).lval is Some && final(self).lval->Some_0.raw@ == value.bytes.raw@,
@fn Lexer::set_yylval_name props=C05,C09
@ensures
  *final(self) == (Lexer { lval: final(self).lval, ..*old(self) }),
  final(self).lval is Some && final(self).lval->Some_0.raw@ == old(self).tokenbuf.bytes.raw@,
@file src/lexer/main.rs all mod=m_main
@skip Lexer Lexer::new Lexer::tokenize_until_eof
@fn Lexer::yylex nodefault props=C05,C06,C07,C08,C09,C15
@locals token_type begin end token_value token
@rewrite .or_else(|| { ==> .or_else(|| -> (o: Option<Bytes>) requires self.buffer.wf(), begin <= end, end <= self.buffer.b().len() ensures o is Some, o->Some_0.raw@ == self.buffer.b().subrange(begin as int, end as int) {
@rewrite |s| Bytes::new( ==> |s: &[u8]| -> (o: Bytes) ensures o.raw@ == s@ { Bytes::new(
@rewrite (s))) }) ==> (s)) }) })
@rewrite .unwrap_or_else(|| Bytes::new(vec![])) ==> .unwrap_or_else(|| -> (o: Bytes) ensures o.raw@.len() == 0 { Bytes::new(vec![]) })
@requires
  old(self).wf(), old(self).lval_start is None, old(self).lval_end is None, -0x4000_0000 < old(self).paren_nest < 0x4000_0000, -0x4000_0000 < old(self).brace_nest < 0x4000_0000, old(self).lpar_beg < 0x4000_0000,
@ensures
  final(self).wf(), final(self).same_src(*old(self)), final(self).lval_start is None, final(self).lval_end is None,
  loc_in(r.pv().loc, old(self).len()),
  r.pv().token_type == Lexer::tNL ==> r.pv().loc.end == r.pv().loc.begin + 1,
  final(self).grew(*old(self)) || !num_tok(r.pv().token_type) || (r.pv().token_value.raw@ == final(self).b().subrange(r.pv().loc.begin as int, r.pv().loc.end as int) && r.pv().token_type == num_kind(r.pv().token_value.raw@)), // @C08
  final(self).grew(*old(self)) || !name_tok(r.pv().token_type) || (if r.pv().token_type == Lexer::tLABEL {
      r.pv().token_value.raw@ == final(self).b().subrange(r.pv().loc.begin as int, r.pv().loc.end - 1) && final(self).b()[r.pv().loc.end - 1] == 58 }
    else { r.pv().token_value.raw@ == final(self).b().subrange(r.pv().loc.begin as int, r.pv().loc.end as int) && name_full(final(self).b(), r.pv().loc.begin as int, r.pv().loc.end as int) }), // @C09
  final(self).str_text(*old(self), r.pv().token_type, r.pv().token_value.raw@), // @C07
  added(final(self).comments@, old(self).comments@, final(self).b(), final(self).buffer.ls()), // @C15
  final(self).comment_done(*old(self)), // @C15
@fnstart
  proof { reveal(Lexer::at_comment); reveal(took); }
@fn Lexer::parser_yylex nodefault isolate props=C05,C06,C07,C08,C09,C15
@attr #[verifier::rlimit(400)]
@locals c space_seen label last_state token_seen strterm cmd_state magic_comment magic_comment cc result begin_loc token result is_beg prev c result c c result result result other c
@rewrite |i| i.as_ref() ==> |i: &Box<StrTerm>| -> (o: &StrTerm) ensures *o == **i { i.as_ref() }
@requires
  old(self).wf(), old(self).lval_start is None, old(self).lval_end is None, old(self).lval is None, -0x4000_0000 < old(self).paren_nest < 0x4000_0000, -0x4000_0000 < old(self).brace_nest < 0x4000_0000, old(self).lpar_beg < 0x4000_0000,
@ensures
  final(self).wf(), final(self).same_src(*old(self)), final(self).tok_ok(r), // @C05 @C06
  final(self).text_ok(*old(self), r), // @C08 @C09
  final(self).str_value(*old(self), r), // @C07
  added(final(self).comments@, old(self).comments@, final(self).b(), final(self).buffer.ls()), // @C15
  final(self).comment_done(*old(self)), // @C15
@loop 0
  invariant old(self).wf(), self.wf(), old(self).strterm is None, self.same_src(*old(self)), self.lval_start is None, self.lval_end is None, self.lval is None || self.grew(*old(self)), self.same_nest0(*old(self)), added(self.comments@, old(self).comments@, self.b(), self.buffer.ls()), self.lpar_beg < 0x4000_0000,
    -0x4000_0000 < old(self).paren_nest < 0x4000_0000, -0x4000_0000 < old(self).brace_nest < 0x4000_0000, old(self).lpar_beg < 0x4000_0000,
    self.comment_done(*old(self)) || self.only_blank(*old(self)),
  ensures
    self.comment_done(*old(self)),     $c is Some && $c->Some_0 != 10 && $c->Some_0 != 36 && self.buffer.after($c->Some_0) && self.unread() && self.buffer.ptok == self.buffer.pcur - 1 && self.tokenbuf.bytes.raw@.len() == 0,
@loop 1
  invariant old(self).strterm is None, self.comment_done(*old(self)), old(self).wf(), self.wf(), self.same_src(*old(self)), self.lval_start is None, self.lval_end is None, self.lval is None || self.grew(*old(self)), self.same_nest0(*old(self)), added(self.comments@, old(self).comments@, self.b(), self.buffer.ls()), self.lpar_beg < 0x4000_0000, self.buffer.nextline == 0, !self.buffer.eofp,
    -0x4000_0000 < old(self).paren_nest < 0x4000_0000, -0x4000_0000 < old(self).brace_nest < 0x4000_0000, old(self).lpar_beg < 0x4000_0000,
    self.nl_at(),
@loop 2
  invariant old(self).strterm is None, self.comment_done(*old(self)), old(self).wf(), self.wf(), self.same_src(*old(self)), self.lval_start is None, self.lval_end is None, self.lval is None || self.grew(*old(self)), self.same_nest0(*old(self)), added(self.comments@, old(self).comments@, self.b(), self.buffer.ls()), self.lpar_beg < 0x4000_0000, self.buffer.nextline == 0,
    -0x4000_0000 < old(self).paren_nest < 0x4000_0000, -0x4000_0000 < old(self).brace_nest < 0x4000_0000, old(self).lpar_beg < 0x4000_0000,
    self.nl_read($c),
  ensures
    $c is Some && $c->Some_0 != 10,
@loop 3
  invariant_except_break no_end(self.b(), self.buffer.ls(), vp_m, self.buffer.line_count as int),
  invariant old(self).strterm is None, self.comment_done(*old(self)), old(self).wf(), self.wf(), self.same_src(*old(self)), self.lval_start is None, self.lval_end is None, self.lval is None || self.grew(*old(self)), self.same_nest0(*old(self)), added(self.comments@, old(self).comments@, self.b(), self.buffer.ls()), self.lpar_beg < 0x4000_0000, self.buffer.nextline == 0,
    -0x4000_0000 < old(self).paren_nest < 0x4000_0000, -0x4000_0000 < old(self).brace_nest < 0x4000_0000, old(self).lpar_beg < 0x4000_0000,
    $begin_loc.begin <= self.buffer.pcur, loc_in($begin_loc, self.len()),
    0 <= vp_l0 < vp_m, self.buffer.line_count >= vp_m, !self.buffer.eofp, block_from(self.b(), self.buffer.ls(), $begin_loc.begin as int, vp_l0),
  ensures
    block_at(self.b(), self.buffer.ls(), $begin_loc.begin as int, self.buffer.pend as int, vp_l0, vp_m, self.buffer.lastline as int),
@start
  proof { lemma_rd_words(); }
@hint before if self.buffer.is_word_match("begin") {
  proof { lemma_rd_words(); }
  let ghost vp_l0 = self.buffer.lastline as int; let ghost vp_m = self.buffer.line_count as int;
@hint before if c == b'=' && self.buffer.is_word_match("end") {
  proof {
    let l = self.buffer.lastline as int;
    assert(self.buffer.pbeg == self.buffer.ls()[l].start && self.buffer.pend == self.buffer.ls()[l].end);
    assert(l + 1 == self.buffer.line_count && vp_m <= l);
    assert(no_end(self.b(), self.buffer.ls(), vp_m, l));
    if c == MaybeByte::Some(61) { assert(self.b()[self.buffer.pbeg as int] == 61 && self.buffer.pcur == self.buffer.pbeg + 1); assert(end_line(self.b(), self.buffer.ls()[l]) == word_at(self.b(), self.buffer.pcur as int, utf8("end"@), self.buffer.pend as int)); }
    else { assert(!end_line(self.b(), self.buffer.ls()[l])); }
  }
@hint before self.comments.push(Comment::new(begin_loc
  proof { lemma_take_block(*self, *old(self), begin_loc.begin as int, vp_l0, vp_m); }
@hint before self.comments.push(Comment::new(self.current_loc()
  proof { lemma_take_line(*self, *old(self)); }
@fnstart
  hide(sbody); hide(sdec); hide(esc); hide(eol); hide(skip_sp); hide(skip_ws); hide(hex_run); hide(oct_run); hide(hex_val); hide(oct_val);
  proof { lemma_added_none(old(self).comments@, old(self).b(), old(self).buffer.ls()); if old(self).strterm is Some { reveal(Lexer::at_comment); } }
@hint before c = self.nextc(); if c.is_eof() { return Self::END_OF_INPUT; } match c
  let ghost vp_b = *self;
@hint before if c.is_eof() { return Self::END_OF_INPUT; } match c
  proof { if vp_b.only_blank(*old(self)) { lemma_blank_read(*self, vp_b, *old(self), c); } }
@hint before let cc = self
  proof { if c == MaybeByte::Some(10) { lemma_nl_end(self.buffer); } }
@fn Lexer::nextc props=C05,C06
@ensures
  final(self).only_buffer(*old(self)),
  final(self).buffer.frame(old(self).buffer),
  final(self).buffer.read_one(old(self).buffer, r),
  final(self).fwd(*old(self)),
@fn Lexer::char_at nodefault props=C05
@ensures
  idx < self.len() ==> r == MaybeByte::Some(self.b()[idx as int]),
  idx >= self.len() ==> r is EndOfInput,
@fn Lexer::token_flush nodefault props=C05,C06
@ensures
  *final(self) == (Lexer { buffer: Buffer { ptok: old(self).buffer.pcur, ..old(self).buffer }, ..*old(self) }),
@fn Lexer::normal_newline_leaf_label props=C05,C06
@ensures
  r == Lexer::tNL,
  *final(self) == (Lexer { command_start: true, lex_state: final(self).lex_state, ..*old(self) }),
@fn Lexer::warn nodefault props=C05,C06
@ensures
  final(self).quiet(*old(self)),
  final(self).nerr() == old(self).nerr(),
  diags_ok(old(self).diagnostics.list@, old(self).len()) && loc_in(loc, old(self).len()) ==> diags_ok(final(self).diagnostics.list@, old(self).len()),
@fn Lexer::compile_error nodefault props=C05,C06
@ensures
  final(self).quiet(*old(self)),
  final(self).nerr() == old(self).nerr() + 1,
  diags_ok(old(self).diagnostics.list@, old(self).len()) && loc_in(loc, old(self).len()) ==> diags_ok(final(self).diagnostics.list@, old(self).len()),
@fn Lexer::yyerror1 nodefault props=C05,C06
@ensures
  final(self).quiet(*old(self)),
  final(self).nerr() == old(self).nerr() + 1,
  diags_ok(old(self).diagnostics.list@, old(self).len()) && loc_in(loc, old(self).len()) ==> diags_ok(final(self).diagnostics.list@, old(self).len()),
@fn Lexer::yyerror0 props=C05,C06
@ensures
  final(self).quiet(*old(self)),
  final(self).nerr() == old(self).nerr() + 1,
@fn Lexer::arg_ambiguous props=C05,C06
@requires
  loc_in(loc, old(self).len()),
@ensures
  final(self).quiet(*old(self)),
  r,
@fn Lexer::new_strterm nodefault props=C05
@ensures
  r is Some && (*r->Some_0) is StringLiteral && (*r->Some_0)->StringLiteral_0.heredoc_end == heredoc_end,
  (*r->Some_0)->StringLiteral_0.nest == 0 && (*r->Some_0)->StringLiteral_0.func == func && (*r->Some_0)->StringLiteral_0.paren == paren && (*r->Some_0)->StringLiteral_0.term == term,
@fn Lexer::loc nodefault props=C05,C06
@ensures
  r.begin == begin_pos, r.end == end_pos,
@fn Lexer::current_loc nodefault props=C05,C06
@ensures
  r.begin == self.buffer.ptok, r.end == self.buffer.pcur,
@fn Lexer::toklen nodefault props=C05,C08
@ensures
  r == self.tokenbuf.bytes.raw@.len(),
@fn Lexer::tokfix nodefault props=C05
@fn Lexer::is_lambda_beginning nodefault props=C05
@ensures
  r == (self.lpar_beg == self.paren_nest),
@fn Lexer::is_lvar_defined nodefault props=C05
@fn Lexer::newtok props=C05
@ensures
  final(self).tokenbuf.bytes.raw@ == Seq::<u8>::empty(),
  *final(self) == (Lexer { tokenbuf: final(self).tokenbuf, buffer: Buffer { tokidx: 0, tokline: old(self).buffer.ruby_sourceline, ..old(self).buffer }, ..*old(self) }),
@fn Lexer::literal_flush nodefault props=C05,C06
@ensures
  *final(self) == (Lexer { buffer: Buffer { ptok: ptok, ..old(self).buffer }, ..*old(self) }),
@fn Lexer::_multibyte_char_len nodefault props=C05,C09
@requires
  ptr < 0x7fff_ffff, self.buffer.input_ok(),
@ensures
  r is Some ==> mb_ok(self.b(), ptr as int, r->Some_0 as int),
@hint before std::str::from_utf8(bytes).ok()?;
  proof {
    let c1 = self.b()[ptr as int];
    assert(bytes@[0] == c1);
    assert(c1 & 0x80 == 0 ==> c1 < 128) by (bit_vector);
    assert(c1 < 128 ==> c1 & 0x80 == 0) by (bit_vector);
    assert(bytes@ == self.b().subrange(ptr as int, ptr + len));
    lemma_one_char(bytes@);
    if valid_utf8(bytes@) && len > 1 { assert forall|i: int| ptr <= i < ptr + len implies self.b()[i] >= 128 by { assert(bytes@[i - ptr] == self.b()[i]); } }
  }
@fn Lexer::multibyte_char_len props=C05,C09
@requires
  ptr < 0x7fff_ffff,
@ensures
  final(self).quiet(*old(self)),
  r is Some ==> mb_ok(old(self).b(), ptr as int, r->Some_0 as int) && final(self).diagnostics == old(self).diagnostics,
  r is None ==> final(self).grew(*old(self)),
@fn Lexer::is_label_suffix props=C05,C09
@requires
  n <= 4,
@ensures
  r ==> self.buffer.pcur + n < self.buffer.pend && self.b()[self.buffer.pcur + n] == 58, // @C09
@fn Lexer::tokadd_mbchar props=C05,C09
@requires
  c is Some ==> old(self).buffer.after(c->Some_0),
  c is EndOfInput ==> old(self).buffer.pcur > 0,
@ensures
  c is EndOfInput ==> r is Err,
  c is Some && r is Err ==> final(self).grew(*old(self)),
  *final(self) == (Lexer { tokenbuf: final(self).tokenbuf, diagnostics: final(self).diagnostics, buffer: Buffer { pcur: final(self).buffer.pcur, ..old(self).buffer }, ..*old(self) }),
  final(self).fwd(*old(self)),
  r is Ok ==> final(self).diagnostics == old(self).diagnostics && mb_ok(old(self).b(), old(self).buffer.pcur - 1, final(self).buffer.pcur - old(self).buffer.pcur + 1)
    && final(self).tokenbuf.bytes.raw@ == old(self).tokenbuf.bytes.raw@ + old(self).b().subrange(old(self).buffer.pcur - 1, final(self).buffer.pcur as int)
    && (c->Some_0 != 10 ==> final(self).buffer.stays()) && final(self).buffer.pcur >= 1,
@hint before match c {
  proof { if c is Some { lemma_char_in_line(self.buffer, self.buffer.pcur - 1, len as int); } }
@fn Lexer::tokadd_ident props=C05,C09
@locals c
@loop 0
  invariant self.wf(), self.step(*old(self)), self.fwd(*old(self)),
    *self == (Lexer { tokenbuf: self.tokenbuf, diagnostics: self.diagnostics, buffer: self.buffer, ..*old(self) }),
    $c is Some, self.buffer.after($c->Some_0) && $c->Some_0 != 10,
    self.buffer.pcur > 0, self.diagnostics == old(self).diagnostics,
    self.buffer.same_line(old(self).buffer), self.buffer.ptok == old(self).buffer.ptok,
    self.tokenbuf.bytes.raw@ == old(self).tokenbuf.bytes.raw@ + self.b().subrange(old(self).buffer.pcur - 1, self.buffer.pcur - 1),
@start
  let ghost vp_p = self.buffer.pcur - 1;
  let ghost vp_t = self.tokenbuf.bytes.raw@;
@loopend
  proof { lemma_cat3(self.b(), old(self).tokenbuf.bytes.raw@, old(self).buffer.pcur - 1, vp_p, self.buffer.pcur - 1); }
@hint before break;
  proof {
    let q = self.cpos(c);
    lemma_cat3(self.b(), old(self).tokenbuf.bytes.raw@, old(self).buffer.pcur - 1, vp_p, q);
    lemma_last_line(self.buffer);
    assert(name_end(self.b(), q));
    assert(self.tokenbuf.bytes.raw@ == old(self).tokenbuf.bytes.raw@ + self.b().subrange(old(self).buffer.pcur - 1, q));
  }
@requires
  c is Some, old(self).buffer.after(c->Some_0) && c->Some_0 != 10,
  old(self).buffer.pcur > 0,
@ensures
  final(self).fwd(*old(self)),
  *final(self) == (Lexer { tokenbuf: final(self).tokenbuf, diagnostics: final(self).diagnostics, buffer: final(self).buffer, ..*old(self) }),
  r ==> final(self).grew(*old(self)), // @C09
  !r ==> final(self).diagnostics == old(self).diagnostics && final(self).buffer.same_line(old(self).buffer) && final(self).buffer.ptok == old(self).buffer.ptok
    && final(self).tokenbuf.bytes.raw@ == old(self).tokenbuf.bytes.raw@ + final(self).b().subrange(old(self).buffer.pcur - 1, final(self).buffer.pcur as int)
    && name_end(final(self).b(), final(self).buffer.pcur as int), // @C09
@fn Lexer::warn_balanced props=C05,C06
@ensures
  r == token_type,
  final(self).quiet(*old(self)),
@rewrite space_seen & !c.is_space() ==> space_seen && !c.is_space()
@file src/lexer/main.rs
@take Lexer
@file src/lexer/parse_atmark.rs all mod=m_atmark
@fn Lexer::parse_atmark props=C05,C06,C09
@requires
  old(self).buffer.after(64),
@ensures
  r != Lexer::tNL, !num_tok(r),
  final(self).grew(*old(self)) || final(self).name_ok(r, old(self).lval), // @C09
@hint before self.tokenize_ident();
  proof { assert(self.b()[self.buffer.ptok as int] == 64); assert(self.tokenbuf.bytes.raw@ =~= self.b().subrange(self.buffer.ptok as int, self.buffer.pcur as int)); }
@file src/lexer/parse_gvar.rs all mod=m_gvar
@fn Lexer::parse_gvar props=C05,C06,C09
@locals last_state ptr c name
@requires
  old(self).buffer.after(36),
@ensures
  r != Lexer::tNL, !num_tok(r),
  final(self).grew(*old(self)) || final(self).name_ok(r, old(self).lval), // @C09
@hint before self.tokenize_ident();
  proof { assert(self.b()[self.buffer.ptok as int] == 36); assert(self.tokenbuf.bytes.raw@ =~= self.b().subrange(self.buffer.ptok as int, self.buffer.pcur as int)); }
@hint before self.buffer.pushback(c);
  proof { lemma_last_line(self.buffer); }
@loop 0
  invariant self.wf(), self.step(*old(self)), $c is Some, self.buffer.after($c->Some_0), $c->Some_0 != 10,
    *self == (Lexer { tokenbuf: self.tokenbuf, buffer: self.buffer, lex_state: self.lex_state, ..*old(self) }),
    self.buffer.same_line(old(self).buffer), self.buffer.ptok + 2 <= self.buffer.pcur, self.buffer.ptok + 1 == old(self).buffer.pcur,
    is_digit(self.b()[self.buffer.ptok + 1]), self.b()[self.buffer.ptok + 1] != 48,
@file src/lexer/parse_ident.rs all mod=m_ident
@fn Lexer::is_identchar props=C05,C09
@requires
  !self.buffer.eofp ==> self.buffer.pcur >= 1,
@ensures
  r == (!self.buffer.eofp && is_identch(self.b()[self.buffer.pcur - 1])),
@fn Lexer::tokenize_ident props=C05,C09
@ensures
  *final(self) == (Lexer { lval: final(self).lval, ..*old(self) }),
  final(self).lval is Some && final(self).lval->Some_0.raw@ == old(self).tokenbuf.bytes.raw@,
@fn Lexer::parse_ident props=C05,C06,C09
@locals c cmd_state result last_state
@requires
  c is Some, old(self).buffer.after(c->Some_0), c->Some_0 != 10, old(self).tokenbuf.bytes.raw@.len() == 0, old(self).buffer.ptok == old(self).buffer.pcur - 1,
  c->Some_0 != 36,
@ensures
  r != Lexer::tNL, !num_tok(r),
  final(self).grew(*old(self)) || final(self).name_ok(r, old(self).lval), // @C09
@loop 0
  invariant self.wf(), self.step(*old(self)), $c is Some, self.buffer.after($c->Some_0), $c->Some_0 != 10,
    *self == (Lexer { tokenbuf: self.tokenbuf, diagnostics: self.diagnostics, buffer: self.buffer, ..*old(self) }),
    self.diagnostics == old(self).diagnostics,
    self.buffer.same_line(old(self).buffer), self.buffer.ptok == old(self).buffer.ptok, self.buffer.pcur >= old(self).buffer.pcur,
    self.tokenbuf.bytes.raw@ == self.b().subrange(old(self).buffer.pcur - 1, self.buffer.pcur - 1),
@start
  let ghost vp_p = self.buffer.pcur - 1;
@loopend
  proof { lemma_cat(self.b(), old(self).buffer.pcur - 1, vp_p, self.buffer.pcur - 1); }
@hint before break;
  proof {
    let q = self.cpos(c);
    lemma_cat(self.b(), old(self).buffer.pcur - 1, vp_p, q);
    lemma_last_line(self.buffer);
    assert(name_end(self.b(), q));
    assert(self.tokenbuf.bytes.raw@ == self.b().subrange(old(self).buffer.pcur - 1, q));
  }
@hint before self.tokfix();
  proof {
    let (s, e) = (self.buffer.ptok as int, self.buffer.pcur as int);
    assert(self.b()[s] == old(self).b()[s]);
    assert(self.tokenbuf.bytes.raw@ == self.b().subrange(s, e));
    assert(name_full(self.b(), s, e));
  }
@file src/lexer/parse_percent.rs all mod=m_percent
@fn Lexer::percent_unknown props=C05,C06
@requires
  term is Some, old(self).buffer.after(term->Some_0), old(self).buffer.ptok < old(self).buffer.pcur, term->Some_0 != 10,
@ensures
  r == Lexer::END_OF_INPUT,
@hint before match len {
  proof { if len is Some { lemma_char_in_line(self.buffer, self.buffer.pcur as int, len->Some_0 as int); } }
@fn Lexer::percent_quotation props=C05,C06
@requires
  *old(c) is Some ==> old(self).buffer.after(old(c)->Some_0), old(self).buffer.ptok < old(self).buffer.pcur,
  old(self).buffer.ls()[old(self).buffer.lastline as int].start < ptok <= old(self).buffer.pcur,
@ensures
  plain(r),
@fn Lexer::percent_unterminated props=C05,C06
@ensures
  r == Lexer::END_OF_INPUT,
@fn Lexer::parse_percent props=C05,C06
@requires
  old(self).buffer.after(37), old(self).buffer.ptok < old(self).buffer.pcur,
@ensures
  plain(r),
@file src/lexer/parse_qmark.rs all mod=m_qmark
@fn Lexer::parse_qmark_ternary props=C05,C06
@requires
  c is Some, old(self).buffer.after(c->Some_0), old(self).unread(),
@ensures
  r is Ok && r->Ok_0 == Lexer::tEH,
@fn Lexer::parse_qmark props=C05,C06,C07
@locals space_seen c c2 start ptr n
@fnstart
  hide(esc); hide(ulist); hide(hex_run); hide(hex_val);
  proof { lemma_str_flags(0); }
@requires
  old(self).buffer.after(63),
@ensures
  r is Ok && plain(r->Ok_0),
  r->Ok_0 == Lexer::tCHAR ==> final(self).lval is Some && (final(self).grew(*old(self)) || char_text(old(self).b(), old(self).buffer.pcur as int, old(self).buffer.pend as int, final(self).lval->Some_0.raw@, final(self).buffer.pcur as int)), // @C07
@loop 0
  invariant self.quiet(vp_e), self.wf(), $start <= $ptr <= self.len(),
@hint after let mut ptr = start;
  let ghost vp_e = *self;
@hint after self.newtok();
  let ghost vp_1 = *self;
@hint before self.tokfix();
  proof {
    let vp_b = self.b(); let vp_p = old(self).buffer.pcur as int; let vp_v = self.tokenbuf.bytes.raw@; let vp_q = self.buffer.pcur as int;
    if !self.grew(*old(self)) {
    if vp_b[vp_p] != 92 { if vp_b[vp_p] < 128 { assert(vp_v =~= vp_b.subrange(vp_p, vp_q)); } else { assert(vp_v =~= vp_b.subrange(vp_p, vp_q)); } }
    else if vp_p + 1 < old(self).buffer.pend && vp_b[vp_p + 1] == 117 { let vp_u = uni(vp_b, vp_p + 2, old(self).buffer.pend as int, None); assert(vp_u is Some); assert(vp_v =~= vp_u->Some_0.0); }
    else if vp_p + 1 < old(self).buffer.pend && vp_b[vp_p + 1] >= 128 { assert(vp_v =~= vp_b.subrange(vp_p + 1, vp_q)); }
    else { let vp_u = esc(vp_b, vp_p + 1, old(self).buffer.pend as int, false, false); assert(vp_u is Some); assert(vp_v =~= seq![vp_u->Some_0.0]); }
    }
  }
@file src/lexer/parse_heredoc.rs all mod=m_heredoc
@fn Lexer::heredoc_identifier nodefault isolate props=C05,C06,C14
@attr #[verifier::rlimit(200)]
@locals line_start offset c term func quote token indent n len id id
@requires
  old(self).wf(), old(self).buffer.after(60), old(self).buffer.ptok + 2 <= old(self).buffer.pcur,
  old(self).lval_start is None && old(self).lval_end is None,
@ensures
  final(self).wf(), final(self).same_src(*old(self)), final(self).same_nest(*old(self)),
  r is None ==> final(self).same_lval(*old(self)),
  r is Some ==> plain(r->Some_0) && final(self).tok_ok(r->Some_0),
  r is Some && !final(self).grew(*old(self)) ==> final(self).strterm is Some && (*final(self).strterm->Some_0) is HeredocLiteral && final(self).buffer.same_line(old(self).buffer) && final(self).buffer.pcur == final(self).buffer.pend && final(self).hd().lastline == old(self).buffer.lastline, // @C14
  r is Some && !final(self).grew(*old(self)) ==> hd_open(old(self).b(), old(self).buffer.pcur as int, old(self).buffer.pend as int, final(self).hd(), final(self).hd_at()), // @C14
  r is Some && !final(self).grew(*old(self)) ==> final(self).buffer.heredoc_line_indent == 0 && final(self).buffer.heredoc_indent == (if old(self).b()[old(self).buffer.pcur as int] == 126 { 0x7fff_ffffi32 } else { 0 }), // @C13 @C14
  r is Some && !final(self).grew(*old(self)) && old(self).in_order() && !final(self).buffer.eofp && 8 * old(self).len() < 0x7fff_ff00 && old(self).b()[old(self).len() - 1] != 35 ==> final(self).hd_pre(), // @C14
@fnstart
  let ghost vp_p = self.buffer.pcur as int;
  let ghost vp_b = self.b();
  proof { lemma_hd_func(); }
@hint before if c == b'\'' || c == b'"' || c == b'`' {
  let ghost vp_m = if vp_b[vp_p] == 45 || vp_b[vp_p] == 126 { vp_p + 1 } else { vp_p };
  proof { assert(old(self).buffer.in_line() ==> $line_start + $offset == vp_m); assert($c is Some && $c->Some_0 != 60 && $c->Some_0 != 10 ==> old(self).buffer.in_line()); }
@loop 0
  invariant_except_break
    forall|i: int| vp_m < i < self.buffer.pcur ==> #[trigger] vp_b[i] != vp_b[vp_m] && vp_b[i] != 10 && vp_b[i] != 13,
    $line_start + $offset <= self.buffer.pcur,
  invariant old(self).wf(), old(self).buffer.after(60), old(self).buffer.ptok + 2 <= old(self).buffer.pcur, old(self).lval_start is None && old(self).lval_end is None,
    $line_start == old(self).buffer.ls()[old(self).buffer.lastline as int].start,
    self.wf(), self.step(*old(self)), self.buffer.same_line(old(self).buffer), self.buffer.ptok == old(self).buffer.ptok,
    vp_b == self.b(), vp_p == old(self).buffer.pcur, vp_m == (if vp_b[vp_p] == 45 || vp_b[vp_p] == 126 { vp_p + 1 } else { vp_p }), $line_start + $offset == vp_m + 1, self.buffer.pcur > vp_m, $term->Some_0 == vp_b[vp_m],
    $quote == 1, $offset >= 3, $term is Some, $term->Some_0 != 10,
    $c is Some, self.buffer.after($c->Some_0), $c->Some_0 != 10,
  ensures
    vp_b[self.buffer.pcur - 1] == vp_b[vp_m], self.buffer.pcur <= self.buffer.pend, forall|i: int| vp_m < i < self.buffer.pcur - 1 ==> #[trigger] vp_b[i] != vp_b[vp_m] && vp_b[i] != 10 && vp_b[i] != 13,
    $line_start + $offset + 1 <= self.buffer.pcur, self.buffer.nextline == 0,
@loop 1
  invariant_except_break
    forall|i: int| vp_m <= i < self.buffer.pcur ==> is_identch(#[trigger] vp_b[i]),
    $c is Some, self.buffer.after($c->Some_0), $c->Some_0 != 10,
    $line_start + $offset < self.buffer.pcur, self.buffer.ptok < self.buffer.pcur,
  invariant old(self).wf(), old(self).buffer.after(60), old(self).buffer.ptok + 2 <= old(self).buffer.pcur, old(self).lval_start is None && old(self).lval_end is None,
    $line_start == old(self).buffer.ls()[old(self).buffer.lastline as int].start,
    self.wf(), self.step(*old(self)), self.buffer.same_line(old(self).buffer), self.buffer.ptok == old(self).buffer.ptok,
    vp_b == self.b(), vp_p == old(self).buffer.pcur, vp_m == (if vp_b[vp_p] == 45 || vp_b[vp_p] == 126 { vp_p + 1 } else { vp_p }), $line_start + $offset == vp_m,
    $quote == 0, $offset >= 2,
  ensures
    $c is Some ==> forall|i: int| vp_m <= i < back(vp_b, self.buffer.pcur as int, self.buffer.pbeg as int) ==> is_identch(#[trigger] vp_b[i]), $c is EndOfInput ==> forall|i: int| vp_m <= i < self.buffer.pcur ==> is_identch(#[trigger] vp_b[i]),
    $c is Some ==> !is_identch(vp_b[back(vp_b, self.buffer.pcur as int, self.buffer.pbeg as int)]), $c is EndOfInput ==> self.buffer.pcur == self.buffer.pend,
    self.buffer.nextline == 0,
    $c is Some ==> self.unread() && $line_start + $offset < back(self.b(), self.buffer.pcur as int, self.buffer.pbeg as int),
    $c is EndOfInput ==> $line_start + $offset < self.buffer.pcur,
@hint before match n {
  proof { if n is Some { lemma_char_in_line(self.buffer, self.buffer.pcur - 1, n->Some_0 as int); } }
@hint before let len = self.buffer.pcur
  let ghost vp_m = *self;
  proof { assert(self.wf()); assert(self.step(*old(self))); assert(self.buffer.same_line(old(self).buffer)); assert(self.buffer.ptok == old(self).buffer.ptok); assert($line_start + $offset + $quote <= self.buffer.pcur && $offset >= 2 + $quote && $quote <= 1 && self.buffer.nextline == 0); assert(self.buffer.ptok <= self.buffer.pcur && self.buffer.pcur <= self.len()); }
@hint before self.buffer.goto_eol();
  proof { assert(self.buffer == vp_m.buffer); assert(self.recs_ok()); }
@hint after self.buffer.goto_eol();
  proof { assert(self.buffer.wf()); assert(self.recs_ok()); }
@hint before self.token_flush();
  proof { assert(self.st_ok()); assert(self.buffer.wf()); assert(self.recs_ok()); assert(self.wf()); }
@fn Lexer::here_document nodefault isolate props=C05,C06,C14
@attr #[verifier::rlimit(200)]
@locals here ptr ptr_end str_ heredoc_end eos len func indent c bol i t cc cc
@rewrite let heredoc_end: HeredocEnd; ==> let mut heredoc_end: HeredocEnd = vp_no_end();
@rewrite self.update_heredoc_indent(self.char_at(ptr + i)) ==> { let ghost vp_w = *self; let vp_c = self.char_at(ptr + i); let vp_z = self.update_heredoc_indent(vp_c); proof { if vp_il { lemma_ind_char(vp_a.b(), ptr as int, ptr + i, vp_a.buffer.pend as int, vp_w.buffer.heredoc_indent as int, vp_w.buffer.heredoc_line_indent as int, vp_c, (self.buffer.heredoc_indent as int, self.buffer.heredoc_line_indent as int)); } } vp_z }
@fnstart
  hide(ind_line); hide(eol); hide(sdec); hide(hpiece); hide(hd_line); hide(is_terminator_line); hide(chr);
  let ghost vp_hd = self.hd_pre();
  let ghost vp_p = self.buffer.pcur as int;
  let ghost vp_s = self.hd_spec();
  let ghost mut vp_p1 = self.buffer.pcur as int;
  let ghost mut vp_x: Seq<u8> = Seq::empty();
  let ghost mut vp_str: Seq<u8> = Seq::empty(); let ghost mut vp_w: Seq<u8> = Seq::empty(); let ghost mut vp_u: Seq<u8> = Seq::empty(); let ghost mut vp_b: int = 0; let ghost mut vp_n0 = *self;
  let ghost vp_il = self.sq_pre();
  let ghost vp_t = self.sq_ind();
  proof { if vp_il { lemma_ind_pos(self.b(), self.buffer.pcur as int, self.buffer.heredoc_indent as int, self.sq_col()); } } // @C13
  proof { lemma_line_bounds(self.buffer, (*self.strterm->Some_0)->HeredocLiteral_0.lastline as int); }
@loop 0
  invariant_except_break
    self.lval_end is None,
    vp_hd ==> self.hd_cur(*old(self), vp_p, $str_.bytes.raw@), // @C07 @C14
    vp_hd && self.buffer.heredoc_indent > 0 ==> -1 <= self.buffer.heredoc_line_indent <= 8 * self.buffer.ls()[self.buffer.lastline as int].start && 8 * self.len() < 0x7fff_ff00,
    vp_il ==> !self.buffer.eofp, // @C13
    vp_il && self.buffer.heredoc_indent > 0 ==> vp_t == ind_line(self.b(), old(self).buffer.pcur as int, self.buffer.heredoc_indent as int, self.buffer.heredoc_line_indent as int) && self.ind_ok() && self.buffer.heredoc_line_indent <= 8 * old(self).buffer.pcur && self.buffer.ls()[self.buffer.lastline as int].start == old(self).buffer.pcur && old(self).buffer.pcur < self.buffer.pend && self.buffer.pend == eol(self.b(), old(self).buffer.pcur as int), // @C13
  invariant vp_hd ==> $func & 2 == 0, vp_p1 == vp_p, vp_x.len() == 0,
    vp_hd == old(self).hd_pre(), vp_p == old(self).buffer.pcur, vp_s == old(self).hd_spec(), $len == old(self).hd().length, $eos == old(self).hd_at(), $here == old(self).hd(), $func == old(self).hd().func, self.strterm == old(self).strterm, $indent == $func & 0x20, vp_p <= self.len(),
    vp_hd ==> !(old(self).hd_fresh() && hd_term(self.b(), vp_p, vp_s)), // @C07 @C14
    vp_hd ==> (self.grew(*old(self)) || self.buffer.heredoc_indent >= 0) && (old(self).buffer.heredoc_indent == 0 ==> self.buffer.heredoc_indent == 0),
    old(self).wf(), self.wf(), self.same_src(*old(self)), self.same_nest(*old(self)), self.fwd(*old(self)), self.buffer.nextline == 0,
    self.lval_start == Some(old(self).buffer.pcur),
    here_ok($here, self.b(), self.buffer.ls(), self.buffer.line_count as int), $eos + $len <= self.len(),
    vp_il == old(self).sq_pre(), vp_t == old(self).sq_ind(), vp_il ==> self.buffer.heredoc_indent >= 0 && (self.buffer.heredoc_indent == 0 ==> vp_t == 0), // @C13
  ensures
    self.lval_end is Some && old(self).buffer.pcur <= self.lval_end->Some_0 <= self.len(),
    $heredoc_end.start <= $heredoc_end.end, $heredoc_end.end <= self.len(),
    vp_il ==> self.buffer.heredoc_indent == 0, // @C13
    vp_hd ==> self.hd_ended(*old(self), vp_p, $str_.bytes.raw@), // @C07 @C14
@loopend
  proof { if vp_hd && !self.grew(*old(self)) { lemma_eol(self.buffer, self.buffer.pbeg as int); lemma_in_order(self.buffer, vp_n0.buffer); lemma_h_next(self.b(), vp_p, vp_str, vp_b, vp_s, vp_w, self.buffer.pbeg as int); } }
@loop 1
  invariant *self == (Lexer { buffer: Buffer { heredoc_indent: self.buffer.heredoc_indent, heredoc_line_indent: self.buffer.heredoc_line_indent, ..vp_a.buffer }, ..vp_a }), vp_a.wf(), $i <= $ptr_end - $ptr, $ptr <= $ptr_end <= vp_a.len(),
    vp_il ==> vp_a.ind_ok() && $ptr == old(self).buffer.pcur && vp_a.buffer.pend == eol(vp_a.b(), $ptr as int) && $ptr_end <= vp_a.buffer.pend && vp_a.buffer.pend <= vp_a.len() && $ptr < vp_a.buffer.pend && vp_t == old(self).sq_ind(), // @C13
    vp_il ==> ($ptr_end == vp_a.buffer.pend && !($ptr + 2 <= $ptr_end && is_crlf(vp_a.b(), $ptr_end - 2, $ptr_end as int))) || ($ptr_end == vp_a.buffer.pend - 2 && is_crlf(vp_a.b(), $ptr_end as int, vp_a.len())) || ($ptr_end == vp_a.buffer.pend - 1 && vp_a.b()[$ptr_end as int] == 13), // @C13
    vp_il ==> -1 <= self.buffer.heredoc_line_indent <= 8 * ($ptr + $i) && self.buffer.heredoc_indent >= 0, // @C13
    vp_il ==> (if $i > 0 && vp_a.b()[$ptr + $i - 1] == 10 { vp_t == self.buffer.heredoc_indent } else { vp_t == ind_line(vp_a.b(), $ptr + $i, self.buffer.heredoc_indent as int, self.buffer.heredoc_line_indent as int) }), // @C13
    vp_hd ==> -1 <= self.buffer.heredoc_line_indent <= 8 * ($ptr + $i) && self.buffer.heredoc_indent >= 0 && 8 * vp_a.len() < 0x7fff_ff00,
@after
  proof {
    if vp_il {
      lemma_eol_last(vp_a.b(), $ptr as int);
      if !($i > 0 && vp_a.b()[$ptr + $i - 1] == 10) { lemma_ind_eol(vp_a.b(), $ptr_end as int, self.buffer.heredoc_indent as int, self.buffer.heredoc_line_indent as int); }
      assert(self.buffer.heredoc_indent == vp_t);
    }
  }
@loop 2
  invariant_except_break
    vp_hd ==> self.hd_more(*old(self), vp_p1, vp_x, $c), // @C07 @C14
    vp_il ==> self.grew(*old(self)) || (self.buffer.heredoc_indent == 0 && vp_t == 0) || ($c is EndOfInput && self.buffer.pcur == self.len()) || ($c is Some && self.in_order() && self.buffer.heredoc_indent > 0 && -1 <= self.buffer.heredoc_line_indent <= 8 * self.cpos($c) && 8 * self.len() < 0x7fff_ff00 && vp_t == ind_line(self.b(), self.cpos($c), self.buffer.heredoc_indent as int, self.buffer.heredoc_line_indent as int)), // @C13
    self.lval_end is Some ==> old(self).buffer.pcur <= self.lval_end->Some_0 <= self.len(),
    $c is Some ==> self.unread() && back(self.b(), self.buffer.pcur as int, self.buffer.pbeg as int) >= old(self).buffer.pcur,
  invariant vp_hd ==> $func & 2 != 0 && hd_start(self.b(), vp_p, vp_s, vp_x, vp_p1),
    vp_hd == old(self).hd_pre(), vp_p == old(self).buffer.pcur, vp_s == old(self).hd_spec(), $len == old(self).hd().length, $eos == old(self).hd_at(), $here == old(self).hd(), $func == old(self).hd().func, self.strterm == old(self).strterm, $indent == $func & 0x20, vp_p <= self.len(),
    vp_hd ==> !(old(self).hd_fresh() && hd_term(self.b(), vp_p, vp_s)), // @C07 @C14
    vp_hd ==> (self.grew(*old(self)) || self.buffer.heredoc_indent >= 0) && (old(self).buffer.heredoc_indent == 0 ==> self.buffer.heredoc_indent == 0),
    vp_il == old(self).sq_pre(), vp_t == old(self).sq_ind(), vp_il ==> func & 0x20 != 0 && func & 5 == 0 && func & 8 == 0 && vp_t >= 0, // @C13
    old(self).wf(), self.wf(), self.same_src(*old(self)), self.same_nest(*old(self)), self.fwd(*old(self)), self.buffer.nextline == 0,
    self.lval_start == Some(old(self).buffer.pcur),
    here_ok($here, self.b(), self.buffer.ls(), self.buffer.line_count as int), $eos + $len <= self.len(),
  ensures
    self.lval_end is Some && old(self).buffer.pcur <= self.lval_end->Some_0 <= self.len(),
    $heredoc_end.start <= $heredoc_end.end, $heredoc_end.end <= self.len(),
    vp_il && !self.grew(*old(self)) ==> self.buffer.heredoc_indent == vp_t, // @C13
    vp_hd ==> self.grew(*old(self)) || (hd_got(self.tokenbuf.bytes.raw@, vp_x) && self.hd_ended(*old(self), vp_p1, hd_tail(self.tokenbuf.bytes.raw@, vp_x))), // @C07 @C14
@loopend
  proof { if vp_hd && !self.grew(*old(self)) { lemma_in_order(self.buffer, vp_n0.buffer); lemma_eol(self.buffer, self.buffer.pbeg as int); lemma_h_next(self.b(), vp_p1, vp_str, vp_b, vp_s, vp_w, self.buffer.pbeg as int); } }
@hint before let mut i = 0;
  let ghost vp_a = *self;
@hint before if (func & STR_FUNC_EXPAND) == 0 {
  proof {
    if vp_hd {
      lemma_in_order(self.buffer, old(self).buffer); lemma_eol(self.buffer, vp_p); lemma_h_new(self.b(), vp_p, vp_s);
      assert(!(old(self).hd_fresh() && hd_term(self.b(), vp_p, vp_s)));
      assert($str_.bytes.raw@ =~= Seq::empty());
      assert(self.cpos($c) == vp_p);
    }
    if vp_il {
      lemma_in_order(self.buffer, old(self).buffer); lemma_eol(self.buffer, old(self).buffer.pcur as int);
      assert($c == MaybeByte::Some(chr(self.b(), old(self).buffer.pcur as int, self.buffer.pend as int)));
      if is_crlf(self.b(), old(self).buffer.pcur as int, self.len()) { lemma_ind_eol(self.b(), old(self).buffer.pcur as int, self.buffer.heredoc_indent as int, self.buffer.heredoc_line_indent as int); lemma_ind_eol(self.b(), old(self).buffer.pcur as int, self.buffer.heredoc_indent as int, old(self).sq_col()); }
      assert(vp_t == ind_line(self.b(), old(self).buffer.pcur as int, self.buffer.heredoc_indent as int, self.buffer.heredoc_line_indent as int));
      assert(self.ind_ok());
    }
  }
@hint after self.tokadd(b'#');
  proof { if vp_hd { assert(self.tokenbuf.bytes.raw@ =~= seq![35u8]); assert(hd_tail(self.tokenbuf.bytes.raw@, vp_x) =~= Seq::<u8>::empty()); assert(self.buffer.in_line()); } }
@hint before if c == b'#' {
  proof { if vp_hd { assert(hd_tail(self.tokenbuf.bytes.raw@, vp_x) =~= Seq::<u8>::empty()); assert(self.tokenbuf.bytes.raw@ =~= vp_x + hd_tail(self.tokenbuf.bytes.raw@, vp_x)); } }
@hint before self.buffer.pushback(c);
  let ghost vp_e = *self;
@hint before match self.tokadd_string(func, b'\n', None, &mut 0) {
  let ghost vp_f = *self;
  proof { if vp_il && !vp_f.grew(*old(self)) && vp_f.buffer.heredoc_indent != 0 && $c is Some { assert(vp_f.buffer.pcur == vp_e.cpos($c)); assert(vp_f.str_pre(func, 10, 0)); } } // @C13
  proof { if vp_hd && !vp_f.grew(*old(self)) { assert(vp_f.buffer.pcur == vp_e.cpos($c)); assert(vp_f.str_pre(func, 10, 0)); vp_b = vp_f.buffer.pcur as int; vp_str = hd_tail(vp_f.tokenbuf.bytes.raw@, vp_x); } }
@hint before if c != b'\n' {
  proof {
    if vp_hd && !self.grew(*old(self)) && $c is Some {
      assert(!vp_f.grew(*old(self)));
      let u = sdec(self.b(), vp_b, vp_s.k, 0)->Some_0.0;
      assert(sdec(self.b(), vp_b, vp_s.k, 0) == Some((u, self.buffer.pcur as int)));
      lemma_hd_tail(vp_f.tokenbuf.bytes.raw@, vp_x, u);
      if $c->Some_0 != 92 { lemma_eol(self.buffer, self.buffer.pcur as int); }
      if $c->Some_0 != 10 { lemma_h_stop(self.b(), vp_p1, vp_str, vp_b, vp_s, u, self.buffer.pcur as int); lemma_h_first(self.b(), vp_p, vp_s, vp_x, vp_p1, vp_str + u, self.buffer.pcur as int, false); }
      vp_w = u.push(10); vp_u = u;
    }
  }
@hint after self.tokadd(cc);
  proof {
    if vp_hd && !self.grew(*old(self)) {
      assert(!vp_f.grew(*old(self)));
      assert($cc == MaybeByte::Some(10)); assert(vp_g.tokenbuf.bytes.raw@ =~= vp_f.tokenbuf.bytes.raw@ + vp_u); assert(vp_w == vp_u.push(10)); assert(self.tokenbuf.bytes.raw@ =~= vp_g.tokenbuf.bytes.raw@.push(10));
      lemma_nl_end(self.buffer);
      assert(self.buffer.pcur == vp_g.buffer.pend);
      assert(self.tokenbuf.bytes.raw@ =~= vp_f.tokenbuf.bytes.raw@ + vp_w);
      lemma_hd_tail(vp_f.tokenbuf.bytes.raw@, vp_x, vp_w);
      if self.buffer.heredoc_indent > 0 { lemma_h_line(self.b(), vp_p1, vp_str, vp_b, vp_s, vp_w, self.buffer.pcur as int); lemma_h_first(self.b(), vp_p, vp_s, vp_x, vp_p1, vp_str + vp_w, self.buffer.pcur as int, false); }
      vp_n0 = *self;
    }
  }
@hint before if self.buffer.eofp {
  proof { assert(vp_hd ==> self.grew(*old(self)) || self.buffer.eofp); }
@hint before return self.here_document_restore(&here);
  proof { if vp_hd && !self.grew(*old(self)) { assert(old(self).hd_fresh()); assert(hd_term(self.b(), vp_p, vp_s)); assert(self.buffer.line_count == old(self).buffer.line_count + (if old(self).buffer.in_line() { 0int } else { 1 })); } }
@hint before self.tokadd(b'#');
  proof { if vp_hd { lemma_last_line(self.buffer); vp_x = seq![35u8]; vp_p1 = vp_p + 1; lemma_h_new(self.b(), vp_p1, vp_s); } }
@hint before self.heredoc_restore(&here);
  let ghost vp_q = self.buffer.pbeg as int;
  proof { if vp_hd && !self.grew(*old(self)) { if $func & 2 == 0 { lemma_h_first(self.b(), vp_p, vp_s, Seq::empty(), vp_p, $str_.bytes.raw@, vp_q, true); } else { lemma_h_first(self.b(), vp_p, vp_s, vp_x, vp_p1, hd_tail($str_.bytes.raw@, vp_x), vp_q, true); } assert(Seq::<u8>::empty() + $str_.bytes.raw@ =~= $str_.bytes.raw@); assert(hfirst(self.b(), vp_p, vp_s, $str_.bytes.raw@, vp_q, true)); assert(vp_q == self.buffer.ls()[self.buffer.line_count - 1].start); } }
@hint after let bol = self.buffer.was_bol();
  proof { if vp_hd { lemma_last_line(self.buffer); lemma_in_order(self.buffer, old(self).buffer); lemma_eol(self.buffer, vp_p); } }
@hint before ptr_end = self.buffer.pend;
  proof { assert(Seq::<u8>::empty() + $str_.bytes.raw@ =~= $str_.bytes.raw@); }
@hint before let cc = self.nextc();
  let ghost vp_g = *self;
  proof {
    if vp_il && !vp_g.grew(*old(self)) { assert(!vp_f.grew(*old(self))); assert(vp_g.buffer.in_line()); assert(vp_f.buffer.pcur < vp_f.len()); assert(vp_g.buffer.heredoc_indent == vp_t); } // @C13
  }
@hint before let t = self.peek_variable_name();
  let ghost vp_h = *self;
@hint before if let Some(t) = t {
  proof { if vp_il { lemma_ind_line(self.b(), old(self).buffer.pcur as int, vp_h.buffer.pend as int, vp_h.buffer.heredoc_indent as int, vp_h.buffer.heredoc_line_indent as int, $c, (self.buffer.heredoc_indent as int, self.buffer.heredoc_line_indent as int)); assert(self.buffer.heredoc_indent == vp_t); lemma_ind_done(self.b(), self.buffer.pcur as int, self.buffer.heredoc_indent as int); } } // @C13
@hint before ptr_end = self.buffer.pend;
  proof { vp_str = $str_.bytes.raw@; vp_b = self.buffer.pbeg as int; vp_w = hd_line(self.b(), self.buffer.pbeg as int, self.buffer.pend as int); }
  proof { if vp_hd && !self.grew(*old(self)) { lemma_eol(self.buffer, self.buffer.pbeg as int); } }
  proof { lemma_line_bounds(self.buffer, self.buffer.lastline as int); }
@hint before return self.heredoc_flush_str(&str_);
  proof { if vp_hd && !self.grew(*old(self)) { reveal(hd_line); assert($str_.bytes.raw@ =~= vp_str + vp_w); lemma_h_line(self.b(), vp_p, vp_str, vp_b, vp_s, vp_w, self.buffer.pcur as int); } }
@hint before if self.nextc().is_eof() {
  proof { vp_n0 = *self; }
  proof { if vp_hd && !self.grew(*old(self)) { reveal(hd_line); assert($str_.bytes.raw@ =~= vp_str + vp_w); } }
@hint before heredoc_end = self.compute_heredoc_end();
  proof { if vp_hd && !self.grew(*old(self)) { lemma_in_order(self.buffer, vp_n0.buffer); lemma_eol(self.buffer, self.buffer.pbeg as int); lemma_h_done(self.b(), vp_p1, vp_str, vp_b, vp_s, vp_w, self.buffer.pbeg as int); } }
@requires
  old(self).wf(), old(self).strterm is Some && (*old(self).strterm->Some_0) is HeredocLiteral,
  old(self).lval_end is None,
@ensures
  final(self).wf(), final(self).same_src(*old(self)), final(self).same_nest(*old(self)),
  plain(r), final(self).tok_ok(r),
  old(self).sq_pre() && r != Lexer::tSTRING_END && !final(self).grew(*old(self)) && final(self).buffer.pcur < final(self).len() ==> final(self).buffer.heredoc_indent == old(self).sq_ind(), // @C13
  final(self).hd_read(*old(self), r), // @C07 @C14
@fn Lexer::compute_heredoc_end props=C05,C06,C14
@locals start end_starts_at end c value
@ensures
  r.start == self.buffer.pbeg, r.start <= r.end, r.end <= self.len(),
@loop 0
  invariant $start <= $end_starts_at <= self.len(),
@loop 1
  invariant $end_starts_at <= $end <= self.len(),
@fn Lexer::here_document_error nodefault props=C05,C06,C14
@requires
  old(self).wf(), here_ok(*here, old(self).b(), old(self).buffer.ls(), old(self).buffer.line_count as int), old(self).buffer.nextline == 0,
  eos + len <= old(self).len(),
@ensures
  final(self).wf(), final(self).same_src(*old(self)), final(self).same_nest(*old(self)),
  r == Lexer::tSTRING_END, final(self).tok_ok(r), final(self).grew(*old(self)),
@fn Lexer::here_document_restore nodefault props=C05,C06,C14
@requires
  old(self).wf(), here_ok(*here, old(self).b(), old(self).buffer.ls(), old(self).buffer.line_count as int), old(self).buffer.nextline == 0,
@ensures
  final(self).wf(), final(self).same_src(*old(self)), final(self).same_nest(*old(self)),
  r == Lexer::tSTRING_END, final(self).tok_ok(r),
  final(self).strterm is None, final(self).buffer.lastline == here.lastline, final(self).buffer.nextline == 0, !final(self).buffer.eofp, final(self).buffer.line_count == old(self).buffer.line_count, // @C14
  final(self).buffer.pcur == old(self).buffer.ls()[here.lastline as int].start + here.offset + here.length + here.quote, // @C14
@fn Lexer::heredoc_flush_str props=C05,C14
@ensures
  *final(self) == (Lexer { lval: final(self).lval, ..*old(self) }),
  final(self).lval is Some && final(self).lval->Some_0.raw@ == str_.bytes.raw@,
  r == Lexer::tSTRING_CONTENT,
@fn Lexer::heredoc_flush props=C05,C14
@ensures
  *final(self) == (Lexer { lval: final(self).lval, tokenbuf: final(self).tokenbuf, ..*old(self) }),
  final(self).lval is Some && final(self).lval->Some_0.raw@ == old(self).tokenbuf.bytes.raw@,
  r == Lexer::tSTRING_CONTENT,
@fn Lexer::heredoc_restore props=C05,C06,C14
@fnstart
  proof { lemma_line_bounds(self.buffer, here.lastline as int); }
@requires
  here_ok(*here, old(self).b(), old(self).buffer.ls(), old(self).buffer.line_count as int), old(self).buffer.nextline == 0,
@ensures
  final(self).strterm is None,
  *final(self) == (Lexer { strterm: None, buffer: final(self).buffer, ..*old(self) }),
  final(self).buffer.nextline == 0, final(self).buffer.lastline == here.lastline, !final(self).buffer.eofp, final(self).buffer.heredoc_indent == old(self).buffer.heredoc_indent, final(self).buffer.line_count == old(self).buffer.line_count,
  final(self).buffer.pcur == old(self).buffer.ls()[here.lastline as int].start + here.offset + here.length + here.quote,
  final(self).buffer.pbeg == old(self).buffer.ls()[here.lastline as int].start,
@fn Lexer::update_heredoc_indent props=C05,C13
@rewrite self.buffer.heredoc_line_indent += 1; ==> self.buffer.heredoc_line_indent = vp_add_i32(self.buffer.heredoc_line_indent, 1);
@rewrite (self.buffer.heredoc_line_indent / TAB_WIDTH) + 1 ==> vp_add_i32(self.buffer.heredoc_line_indent / TAB_WIDTH, 1)
@rewrite w * TAB_WIDTH ==> vp_mul_i32(w, TAB_WIDTH)
@ensures
  r,
  *final(self) == (Lexer { buffer: Buffer { heredoc_indent: final(self).buffer.heredoc_indent, heredoc_line_indent: final(self).buffer.heredoc_line_indent, ..old(self).buffer }, ..*old(self) }),
  -1 <= old(self).buffer.heredoc_line_indent < 0x7fff_fff0 ==> (final(self).buffer.heredoc_indent as int, final(self).buffer.heredoc_line_indent as int) == ind_step(old(self).buffer.heredoc_indent as int, old(self).buffer.heredoc_line_indent as int, c), // @C13
@file src/lexer/parse_magic_comment.rs all mod=m_magic
@fn Lexer::comment_at_top loops=1 props=C05,C15
@requires
  self.buffer.pcur >= 1,
@fn Lexer::set_file_encoding props=C05,C06
@locals str_ send sep c beg _enc_name
@requires
  str_ <= send, send <= old(self).len(), old(self).len() < 0x8000_0000,
@ensures
  *final(self) == *old(self),
@loop 0
  invariant *self == *old(self), $str_ <= $send, $send <= self.len(),
@loop 1
  invariant *self == *old(self), $str_ <= $send, $send <= self.len(),
@loop 2
  invariant *self == *old(self), $str_ <= $send, $send <= self.len(),
@loop 3
  invariant *self == *old(self), $beg <= $str_ <= self.len(), $send <= self.len(),
@fn Lexer::magic_comment_marker props=C05,C06
@locals str_ len i
@requires
  str_ + len <= self.len(),
@ensures
  r == 0 || str_ + 3 <= r <= str_ + len,
@loop 0
  invariant 2 <= $i <= $len + 4 || $i == 2, $str_ + $len <= self.len(), self.wf(),
@fn Lexer::magic_comment loops=10 props=C05,C06,C15
@locals str_ len indicator name end vbeg vend beg len c c c c c n name name_to_compare name kind encoding encoding err err key_l value_l magic_comment
@requires
  str_ + len <= old(self).len(), old(self).buffer.pcur >= 1,
@ensures
  *final(self) == (Lexer { buffer: Buffer { input: final(self).buffer.input, ..old(self).buffer }, diagnostics: final(self).diagnostics, magic_comments: final(self).magic_comments, ..*old(self) }),
  r is Err ==> final(self).grew(*old(self)), // @C15
@loop 0
  invariant self.wf(), self.step(*old(self)), *self == (Lexer { buffer: Buffer { input: self.buffer.input, ..old(self).buffer }, diagnostics: self.diagnostics, magic_comments: self.magic_comments, ..*old(self) }),
    $str_ + $len == vp_e, vp_e <= self.len(), $indicator ==> vp_e + 3 <= self.len(), -2 <= $len,
@before
  let ghost vp_e = $str_ + $len;
@loop 1
  invariant $str_ + $len == vp_e, 0 <= $len,
@loop 2
  invariant $str_ + $len == vp_e, 0 <= $len, $beg <= $str_,
@loop 3
  invariant $str_ + $len == vp_e, 0 <= $len, $end <= $str_,
@loop 4
  invariant 1 <= $len, $str_ + $len == vp_e, $end <= $str_,
@loop 5
  invariant $str_ + $len == vp_e + 1, 0 <= $len, $vbeg <= $str_, $end <= $str_,
@loop 6
  invariant $str_ + $len == vp_e, 0 <= $len, $vbeg <= $str_, $end <= $str_,
@loop 7
  invariant $str_ + $len == vp_e, -2 <= $len, $vend <= $str_,
@loop 8
  invariant $str_ + $len == vp_e, -2 <= $len, $vend <= $str_,
@loop 9
  invariant self.wf(), self.step(*old(self)), *self == (Lexer { buffer: Buffer { input: self.buffer.input, ..old(self).buffer }, diagnostics: self.diagnostics, magic_comments: self.magic_comments, ..*old(self) }),
@file src/lexer/parse_numeric.rs all mod=m_numeric
@fn Lexer::parse_numeric isolate props=C05,C06,C08
@attr #[verifier::rlimit(600)]
@fnstart
  hide(num_kind); hide(sfx_text); hide(nerr); hide(sfx_ok); hide(sfx_at);
@locals prefix c is_float seen_point seen_e nondigit suffix start byte tok byte tok byte tok result result tok byte c0 nondigit_value
@requires
  old(self).buffer.after(prefix), old(self).buffer.ptok < old(self).buffer.pcur, is_digit(prefix) || prefix == 43 || prefix == 45 || prefix == 46,
@ensures
  r != Lexer::tNL, prefix != 46 ==> final(self).num_done(*old(self), r),
@hint before if let Some(result) = self.parse_octal(
  let ghost vp_o = *self; let ghost vp_c = c;
@hint before return result;
  proof { if !self.grew(vp_o) && !vp_o.grew(*old(self)) { lemma_cat(self.b(), old(self).buffer.pcur - 1, vp_o.cpos(vp_c), self.buffer.pcur as int); } }
@hint after self.newtok();
  proof { assert(self.cpos(c) == old(self).buffer.pcur - 1); assert(self.tokenbuf.bytes.raw@ =~= old(self).b().subrange(old(self).buffer.pcur - 1, self.cpos(c))); assert(self.num_at(*old(self), c)); }
@hint before if c == b'0' {
  proof { assert(self.num_at(*old(self), c)); assert(c != MaybeByte::Some(48) ==> self.num_loop(*old(self), prefix, $c, $nondigit, $is_float)) by { reveal(Lexer::num_loop); } }
@hint before if c == b'x' || c == b'X' {
  proof { assert(self.num_at(*old(self), c)); assert($start <= 2); }
@hint before if c > b'7' && c <= b'9' {
  proof { assert(self.num_at(*old(self), c)); assert(!frac(self.tokenbuf.bytes.raw@)); assert(!incl(self.tokenbuf.bytes.raw@, 120) && !incl(self.tokenbuf.bytes.raw@, 88)); assert(self.cpos(c) > old(self).buffer.pcur - 1);
    assert($nondigit is Some ==> $nondigit->Some_0 == MaybeByte::Some(95) && self.cpos(c) >= old(self).buffer.pcur + 1);
    assert(self.num_loop(*old(self), prefix, $c, $nondigit, $is_float)) by { reveal(Lexer::num_loop); } }
@hint before self.invalid_octal();
  let ghost vp_q = *self;
@hint after self.invalid_octal();
  proof { lemma_num_loop(*self, vp_q, *old(self), prefix, $c, $nondigit, $is_float); }
@hint before if !c.is_eof() && c.is_hexdigit() {
  proof { assert(self.num_at(*old(self), c)); }
@hint before if c == b'0' || c == b'1' {
  proof { assert(self.num_at(*old(self), c)); }
@hint before if !c.is_eof() && c.is_digit() {
  proof { assert(self.num_at(*old(self), c)); }
@hint before self.buffer.pushback(c);
  let ghost vp_l = *self;
@hint before suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
  let ghost vp_m = *self;
  proof { lemma_num_end(*self, vp_l, *old(self), c); assert(!frac(self.tokenbuf.bytes.raw@)); }
@hint before return self.set_integer_literal(&mut tok, suffix);
  proof { lemma_int_end(*self, vp_m, *old(self), tok.bytes.raw@, suffix); }
@loop 0
  invariant old(self).wf(), old(self).buffer.after(prefix), old(self).buffer.ptok < old(self).buffer.pcur, self.num_at(*old(self), $c), $start <= 2,
    $nondigit is Some ==> $nondigit->Some_0 is Some, self.cpos($c) >= old(self).buffer.pcur + 1,
    incl(self.tokenbuf.bytes.raw@, 120) || incl(self.tokenbuf.bytes.raw@, 88), !incl(self.tokenbuf.bytes.raw@, 46),
@loop 1
  invariant old(self).wf(), old(self).buffer.after(prefix), old(self).buffer.ptok < old(self).buffer.pcur, self.num_at(*old(self), $c), $start <= 2,
    $nondigit is Some ==> $nondigit->Some_0 is Some, self.cpos($c) >= old(self).buffer.pcur + 1,
    !frac(self.tokenbuf.bytes.raw@),
@loop 2
  invariant old(self).wf(), old(self).buffer.after(prefix), old(self).buffer.ptok < old(self).buffer.pcur, self.num_at(*old(self), $c), $start <= 2,
    $nondigit is Some ==> $nondigit->Some_0 is Some, self.cpos($c) >= old(self).buffer.pcur + 1,
    !frac(self.tokenbuf.bytes.raw@),
@loop 3
  invariant old(self).wf(), is_digit(prefix) || prefix == 43 || prefix == 45 || prefix == 46, old(self).buffer.after(prefix), old(self).buffer.ptok < old(self).buffer.pcur,
    self.num_loop(*old(self), prefix, $c, $nondigit, $is_float),
@start
  reveal(Lexer::num_loop);
  broadcast use lemma_cat;
@fn Lexer::parse_octal isolate props=C05,C06,C08
@attr #[verifier::rlimit(60)]
@locals c nondigit start byte suffix tok byte
@requires
  *old(c) is Some, old(c)->Some_0 == 95 || (48 <= old(c)->Some_0 && old(c)->Some_0 <= 55), old(self).buffer.after(old(c)->Some_0), old(self).unread(), *old(nondigit) is None, old(self).buffer.pbeg < old(self).cpos(*old(c)), start <= old(self).tokenbuf.bytes.raw@.len(),
  !incl(old(self).tokenbuf.bytes.raw@, 105), !incl(old(self).tokenbuf.bytes.raw@, 114), !frac(old(self).tokenbuf.bytes.raw@), !incl(old(self).tokenbuf.bytes.raw@, 120), !incl(old(self).tokenbuf.bytes.raw@, 88),
@ensures
  final(self).nerr() >= old(self).nerr(),
  r is Some ==> r->Some_0 != Lexer::tNL && (final(self).grew(*old(self)) || (final(self).diagnostics == old(self).diagnostics && final(self).buffer.ptok == old(self).buffer.ptok && final(self).lval is Some && old(self).cpos(*old(c)) <= final(self).buffer.pcur
    && final(self).lval->Some_0.raw@ == old(self).tokenbuf.bytes.raw@ + old(self).b().subrange(old(self).cpos(*old(c)), final(self).buffer.pcur as int) && r->Some_0 == num_kind(final(self).lval->Some_0.raw@))),
  r is None ==> final(self).num_more(*old(self), *old(c), *final(c)) && final(self).grew(*old(self)) && (*final(c) == MaybeByte::Some(56) || *final(c) == MaybeByte::Some(57))
    && (*final(nondigit) is Some ==> *final(nondigit) == Some(MaybeByte::Some(95)) && final(self).cpos(*final(c)) > old(self).cpos(*old(c)) && old(self).b()[final(self).cpos(*final(c)) - 1] == 95),
@hint before let suffix = self.number_literal_suffix(NUM_SUFFIX_ALL);
  let ghost vp_m = *self;
@hint before return Some(self.set_integer_literal(&mut tok, suffix));
  proof {
    lemma_sfx_at(self.b(), vp_m.buffer.pcur as int, self.buffer.pcur as int, suffix);
    lemma_cat3(self.b(), old(self).tokenbuf.bytes.raw@, old(self).cpos(*old(c)), vp_m.buffer.pcur as int, self.buffer.pcur as int);
    lemma_num_kind(tok.bytes.raw@, self.b().subrange(vp_m.buffer.pcur as int, self.buffer.pcur as int), sfx_kind(suffix, Lexer::tINTEGER));
  }
@loop 0
  invariant old(self).wf(), *old(c) is Some, old(c)->Some_0 == 95 || (48 <= old(c)->Some_0 && old(c)->Some_0 <= 55), old(self).buffer.after(old(c)->Some_0), old(self).unread(), *old(nondigit) is None, old(self).buffer.pbeg < old(self).cpos(*old(c)),
    self.num_more(*old(self), *old(c), *$c), self.diagnostics == old(self).diagnostics,
    *$nondigit is Some ==> *$nondigit == Some(MaybeByte::Some(95)) && self.cpos(*$c) > old(self).cpos(*old(c)) && self.b()[self.cpos(*$c) - 1] == 95,
    self.cpos(*$c) > old(self).cpos(*old(c)) || (*$c == *old(c) && *self == *old(self)),
  ensures
    self.cpos(*$c) > old(self).cpos(*old(c)),
@fn Lexer::invalid_octal props=C05,C06,C08
@ensures
  r == Lexer::END_OF_INPUT, final(self).quiet(*old(self)), final(self).grew(*old(self)),
@fn Lexer::trailing_uc props=C05,C06,C08
@requires
  old(self).buffer.pbeg < old(self).buffer.pcur,
@ensures
  r == Lexer::END_OF_INPUT, final(self).grew(*old(self)),
  *final(self) == (Lexer { diagnostics: final(self).diagnostics, buffer: Buffer { ptok: final(self).buffer.ptok, ..old(self).buffer }, ..*old(self) }),
@fn Lexer::decode_num props=C05,C06,C08
@requires
  c is Some ==> old(self).unread(), c is EndOfInput ==> old(self).buffer.eofp, old(self).buffer.nextline == 0,
  nondigit is Some ==> old(self).buffer.pbeg < old(self).cpos(c) && nondigit->Some_0 is Some,
@ensures
  r != Lexer::tNL, nondigit is Some ==> final(self).grew(*old(self)), final(self).nerr() >= old(self).nerr(),
  nondigit is None ==> ({ let t = final(self).b().subrange(old(self).cpos(c), final(self).buffer.pcur as int);
    &&& final(self).diagnostics == old(self).diagnostics && final(self).buffer.ptok == old(self).buffer.ptok
    &&& final(self).lval is Some && final(self).lval->Some_0.raw@ == old(self).tokenbuf.bytes.raw@ + t
    &&& sfx_ok(t, if is_float { Lexer::tFLOAT } else { Lexer::tINTEGER }, r)
    &&& !incl(old(self).tokenbuf.bytes.raw@, 105) && !incl(old(self).tokenbuf.bytes.raw@, 114) && is_float == frac(old(self).tokenbuf.bytes.raw@) ==> r == num_kind(final(self).lval->Some_0.raw@)
    &&& old(self).cpos(c) <= final(self).buffer.pcur }),
@hint before self.parse_numeric_footer(is_float, seen_e)
  broadcast use lemma_num_kind_b;
@fn Lexer::parse_numeric_footer props=C05,C06,C08
@fnstart
  proof { lemma_sfx_bits(); }
  broadcast use lemma_sfx_at;
@requires
  old(self).buffer.stays(),
@ensures
  r != Lexer::tNL, final(self).diagnostics == old(self).diagnostics, final(self).buffer.ptok == old(self).buffer.ptok,
  final(self).lval is Some && final(self).lval->Some_0.raw@ == old(self).tokenbuf.bytes.raw@ + final(self).b().subrange(old(self).buffer.pcur as int, final(self).buffer.pcur as int),
  ({ let t = final(self).b().subrange(old(self).buffer.pcur as int, final(self).buffer.pcur as int);
    sfx_ok(t, if is_float { Lexer::tFLOAT } else { Lexer::tINTEGER }, r) }),
  old(self).buffer.pcur <= final(self).buffer.pcur,
@fn Lexer::set_number_literal props=C05,C08
@fnstart
  proof { lemma_sfx_bits(); }
@requires
  0 <= suffix <= 3, token_type != Lexer::tNL,
@ensures
  r == (if suffix >= 2 { Lexer::tIMAGINARY } else { token_type }),
  *final(self) == (Lexer { lval: final(self).lval, lex_state: final(self).lex_state, ..*old(self) }),
  final(self).lval is Some && final(self).lval->Some_0.raw@ == old(value).bytes.raw@ + (if suffix >= 2 { seq![105u8] } else { seq![] }),
@fn Lexer::no_digits props=C05,C06,C08
@ensures
  r != Lexer::tNL, final(self).grew(*old(self)),
@fn Lexer::number_literal_suffix isolate props=C05,C06,C08
@locals mask c mask result lastp
@fnstart
  proof { lemma_sfx_bits(); }
  let ghost vp_m = mask;
@requires
  old(self).buffer.stays(), mask == 2 || mask == 3,
@ensures
  final(self).only_buffer(*old(self)), final(self).buffer.same_line(old(self).buffer), final(self).buffer.ptok == old(self).buffer.ptok,
  0 <= r <= 3, old(self).buffer.pcur <= final(self).buffer.pcur,
  sfx_at(final(self).b(), old(self).buffer.pcur as int, final(self).buffer.pcur as int, r), mask == 2 ==> r == 0 || r == 2,
@loop 0
  invariant_except_break self.buffer.stays(), $result == 0 ==> $mask == 2 || $mask == 3, $result == 1 ==> $mask == 2, $result >= 2 ==> $mask == 0, vp_m == 2 && $result == 0 ==> $mask == 2,
  invariant old(self).wf(), old(self).buffer.stays(), self.wf(), self.only_buffer(*old(self)), self.buffer.same_line(old(self).buffer), self.buffer.ptok == old(self).buffer.ptok, self.b() == old(self).b(), self.buffer.ls() == old(self).buffer.ls(),
    $lastp == old(self).buffer.pcur, 0 <= $result <= 3, sfx_at(self.b(), $lastp as int, self.buffer.pcur as int, $result), vp_m == 2 ==> $result == 0 || $result == 2,
@start
  proof { lemma_sfx_bits(); }
@fn Lexer::set_integer_literal props=C05,C08
@fnstart
  proof { lemma_sfx_bits(); }
@requires
  0 <= suffix <= 3,
@ensures
  r == sfx_kind(suffix, Lexer::tINTEGER),
  *final(self) == (Lexer { lval: final(self).lval, lex_state: final(self).lex_state, ..*old(self) }),
  final(self).lval is Some && final(self).lval->Some_0.raw@ == old(value).bytes.raw@ + sfx_text(suffix),
@file src/lexer/parse_string.rs all mod=m_string
@fn Lexer::take_strterm props=C05
@rewrite |v| *v ==> |v: Box<StrTerm>| -> (o: StrTerm) ensures o == *v { *v }
@requires
  old(self).strterm is Some && (*old(self).strterm->Some_0) is StringLiteral,
@ensures
  *final(self) == (Lexer { strterm: None, ..*old(self) }),
  r == (*old(self).strterm->Some_0)->StringLiteral_0,
@fn Lexer::restore_strterm props=C05
@requires
  lit_ok(literal, old(self).b()),
@ensures
  *final(self) == (Lexer { strterm: final(self).strterm, ..*old(self) }),
  final(self).strterm is Some && *final(self).strterm->Some_0 == StrTerm::StringLiteral(literal),
@fn Lexer::flush_string_content props=C05
@ensures
  *final(self) == *old(self),
@fn Lexer::peek_variable_name props=C05,C06
@ensures
  final(self).buffer == (Buffer { pcur: final(self).buffer.pcur, ..old(self).buffer }),
  r is None ==> *final(self) == *old(self),
  r is Some ==> plain(r->Some_0) && r->Some_0 != Lexer::tSTRING_CONTENT && r->Some_0 != Lexer::tSTRING_END,
  final(self).fwd(*old(self)),
@fn Lexer::parse_string nodefault props=C05,C06,C07
@attr #[verifier::rlimit(400)]
@locals quote func term paren space c nest added
@requires
  old(self).wf(), old(self).strterm is Some && (*old(self).strterm->Some_0) is StringLiteral,
  old(self).lval_end is None,
@ensures
  final(self).wf(), final(self).same_src(*old(self)), final(self).same_nest(*old(self)),
  plain(r), final(self).tok_ok(r),
  final(self).str_value(*old(self), r), // @C07
@fnstart
  hide(esc); hide(uni); hide(sdec); hide(ulist); hide(eol); hide(sstep);
  let ghost vp_o = *self;
  let ghost vp_l = (*self.strterm->Some_0)->StringLiteral_0;
  let ghost vp_k = str_k(vp_l.func, vp_l.term, vp_l.paren);
  let ghost vp_pre = self.str_pre(vp_l.func, vp_l.term, vp_l.nest as int);
  proof { lemma_str_flags(vp_l.func); }
@hint before if (func & STR_FUNC_QWORDS) != 0 && c.is_space() {
  let ghost vp_1 = *self;
  proof { if vp_pre && $c is Some { lemma_in_order(self.buffer, vp_o.buffer); lemma_eol(self.buffer, vp_o.buffer.pcur as int); } }
@hint before let mut nest = quote.nest;
  let ghost vp_2 = *self;
@hint after self.tokadd_string(func, term, paren, &mut nest);
  proof { if vp_pre { assert(vp_2.nerr() == vp_o.nerr()); lemma_ocat_nil(sdec(vp_o.b(), vp_o.buffer.pcur as int, vp_k, vp_l.nest as int)); } }
@loop 0
  invariant self.wf(), self.same_src(*old(self)), self.same_nest(*old(self)), self.fwd(*old(self)), self.buffer.nextline == 0,
    self.lval_start == Some(old(self).buffer.pcur), self.lval_end is None, self.strterm is None,
@fn Lexer::string_term props=C05,C06
@ensures
  plain(r), r != Lexer::tSTRING_CONTENT, final(self).fwd(*old(self)), final(self).strterm is None,
@fn Lexer::regx_options props=C05,C06
@ensures
  final(self).fwd(*old(self)), final(self).strterm == old(self).strterm,
@loop 0
  invariant self.wf(), self.step(*old(self)), self.fwd(*old(self)), self.strterm == old(self).strterm,
    forall|i: int| 0 <= i < self.tokenbuf.bytes.raw@.len() ==> self.tokenbuf.bytes.raw@[i] < 128,
@hint before self.tokfix();
  proof { lemma_ascii_valid(self.tokenbuf.bytes.raw@); }
@fn Lexer::tokadd_string isolate props=C05,C06,C07
@locals func term paren nest c _erred c2 escbuf
@attr #[verifier::rlimit(400)]
@rewrite write!(&mut escbuf[..], "\\x{:02X}", c.expect("bug")).unwrap() ==> vp_write_hex(&mut escbuf, c.expect("bug"))
@rewrite *nest += 1 ==> *nest = vp_add_usize(*nest, 1)
@ensures
  final(self).fwd(*old(self)), final(self).buffer.nextline == 0,
  r is Some && r->Some_0 is Some && r->Some_0->Some_0 != 92 ==> final(self).buffer.in_line(),
  old(self).str_pre(func, term, *old(nest) as int) && r is Some && r->Some_0 is Some ==> final(self).whole(*old(self), sdec(old(self).b(), old(self).buffer.pcur as int, str_k(func, term, paren), *old(nest) as int)), // @C07
  old(self).str_pre(func, term, *old(nest) as int) && !(r is Some && r->Some_0 is Some) ==> final(self).grew(*old(self)) || final(self).buffer.pcur == final(self).len(),
  old(self).str_pre(func, term, *old(nest) as int) && func & 0x20 != 0 && func & 8 == 0 && paren is None && *old(nest) == 0 && old(self).buffer.heredoc_indent > 0 && r is Some && r->Some_0 is Some && !final(self).grew(*old(self))
    ==> final(self).buffer.heredoc_indent == ind_line(old(self).b(), old(self).buffer.pcur as int, old(self).buffer.heredoc_indent as int, old(self).buffer.heredoc_line_indent as int), // @C13
  old(self).buffer.heredoc_indent == 0 ==> final(self).buffer.heredoc_indent == 0,
  final(self).strterm == old(self).strterm,
  old(self).str_pre(func, term, *old(nest) as int) && r is None ==> final(self).grew(*old(self)) || final(self).buffer.eofp,
  old(self).str_pre(func, term, *old(nest) as int) && func & 8 == 0 && r is Some && r->Some_0 is Some && !final(self).grew(*old(self)) ==> final(self).in_order() && (func & 0x20 != 0 ==> final(self).ind_ok()),
  old(self).str_pre(func, term, *old(nest) as int) && func & 8 == 0 && r is Some && r->Some_0 is Some && !final(self).grew(*old(self)) ==> (if r->Some_0->Some_0 == 92 && term != 92 { func & 0x20 != 0 && final(self).buffer.pcur == final(self).buffer.pend && final(self).buffer.pcur > old(self).buffer.pcur && final(self).b()[final(self).buffer.pcur - 1] == 10 } else { r->Some_0->Some_0 == chr(final(self).b(), final(self).buffer.pcur as int, final(self).buffer.pend as int) }),
@fnstart
  hide(ind_line); hide(esc); hide(uni); hide(sdec); hide(eol); hide(ulist); hide(sstep); hide(sesc); hide(str_to); hide(str_ends);
  let ghost vp_k = str_k(func, term, paren);
  let ghost vp_pre = self.str_pre(func, term, *nest as int);
  let ghost vp_n0 = *nest as int;
  let ghost vp_il = vp_pre && func & 0x20 != 0 && func & 8 == 0 && paren is None && *nest == 0 && self.buffer.heredoc_indent > 0;
  let ghost vp_t = ind_line(self.b(), self.buffer.pcur as int, self.buffer.heredoc_indent as int, self.buffer.heredoc_line_indent as int);
  proof { if vp_pre { lemma_str_new(*self, vp_k, vp_n0); } lemma_str_flags(func); }
@loop 0
  invariant_except_break vp_pre ==> self.str_inv(*old(self), vp_k, vp_n0, *nest as int), vp_pre && func & 0x20 != 0 ==> self.ind_ok(),
    vp_il ==> *nest == 0 && (self.grew(*old(self)) || self.ind_to(vp_t)), // @C13
  invariant old(self).wf(), self.wf(), self.step(*old(self)), self.fwd(*old(self)), self.strterm == old(self).strterm,
    old(self).buffer.heredoc_indent == 0 ==> self.buffer.heredoc_indent == 0,
    vp_k == str_k(func, term, paren), vp_pre == old(self).str_pre(func, term, *old(nest) as int), vp_n0 == *old(nest),
    vp_il == (vp_pre && func & 0x20 != 0 && func & 8 == 0 && paren is None && *old(nest) == 0 && old(self).buffer.heredoc_indent > 0), vp_t == ind_line(old(self).b(), old(self).buffer.pcur as int, old(self).buffer.heredoc_indent as int, old(self).buffer.heredoc_line_indent as int), // @C13
  ensures self.buffer.nextline == 0, $c is Some ==> self.buffer.in_line(),
    vp_il && $c is Some && !self.grew(*old(self)) ==> self.buffer.heredoc_indent == vp_t, // @C13
    vp_pre && func & 8 == 0 && $c is Some && !self.grew(*old(self)) ==> self.in_order() && (func & 0x20 != 0 ==> self.ind_ok()) && $c == MaybeByte::Some(chr(self.b(), self.buffer.pcur as int, self.buffer.pend as int)) && ($c == MaybeByte::Some(92) ==> term == 92),
    vp_pre && $c is Some ==> self.whole(*old(self), sdec(old(self).b(), old(self).buffer.pcur as int, vp_k, vp_n0)),
    vp_pre && $c is EndOfInput ==> self.grew(*old(self)) || self.buffer.pcur == self.len(),
@start
  let ghost vp_m = *self;
  let ghost vp_n = *nest as int;
  let ghost vp_end = eol(self.b(), self.buffer.pcur as int);
  proof { lemma_str_flags(func); }
@loopend
  proof { lemma_ind_done(self.b(), self.buffer.pcur as int, self.buffer.heredoc_indent as int); if vp_pre { lemma_str_cases(*self, vp_m, vp_k, vp_n, *nest as int, vp_end); lemma_str_step(*self, vp_m, *old(self), vp_k, vp_n0, vp_n, *nest as int); } }
@loop 1
  invariant old(self).wf(), self.wf(), self.step(*old(self)), self.fwd(*old(self)), self.strterm == old(self).strterm, $i <= vp_e1 <= vp_s1@.len(), old(self).buffer.heredoc_indent == 0 ==> self.buffer.heredoc_indent == 0,
@hint before break;
  proof { if vp_pre && $c is EndOfInput { reveal(Lexer::str_inv); } if vp_pre && $c is Some { lemma_str_cases(*self, vp_m, vp_k, vp_n, *nest as int, vp_end); lemma_str_stop(*self, vp_m, *old(self), vp_k, vp_n0, vp_n); } }
@hint before return Some(MaybeByte::new(b'\\'));
  proof { if self.b()[self.buffer.pcur - 1] == 10 && self.buffer.pbeg < self.buffer.pcur { lemma_nl_end(self.buffer); } if vp_pre { lemma_str_cases(*self, vp_m, vp_k, vp_n, *nest as int, vp_end); lemma_str_stop(*self, vp_m, *old(self), vp_k, vp_n0, vp_n); } }
@hint before continue;
  proof { lemma_ind_done(self.b(), self.buffer.pcur as int, self.buffer.heredoc_indent as int); if vp_pre { lemma_str_cases(*self, vp_m, vp_k, vp_n, *nest as int, vp_end); lemma_str_step(*self, vp_m, *old(self), vp_k, vp_n0, vp_n, *nest as int); } }
@hint before if self.buffer.heredoc_indent > 0 {
  proof { assert(self.unread()); assert(back(self.b(), self.buffer.pcur as int, self.buffer.pbeg as int) >= old(self).buffer.pcur); assert(self.wf()); assert(self.step(*old(self)));
    if vp_pre && !vp_m.grew(*old(self)) { reveal(Lexer::str_inv); lemma_in_order(self.buffer, vp_m.buffer); lemma_eol(self.buffer, vp_m.buffer.pcur as int); } }
@hint before match c.as_option() {
  proof { assert($c is Some ==> self.unread() && back(self.b(), self.buffer.pcur as int, self.buffer.pbeg as int) >= old(self).buffer.pcur && self.buffer.after($c->Some_0) && self.buffer.pcur >= 1 && back(self.b(), self.buffer.pcur as int, self.buffer.pbeg as int) >= 1); assert(self.wf()); assert(self.step(*old(self))); assert(self.fwd(*old(self))); assert(self.buffer.nextline == 0); }
@hint before self.tokadd(c);
  proof { assert($c is Some); assert(self.wf()); assert(self.step(*old(self))); assert(self.fwd(*old(self))); assert(self.buffer.nextline == 0); }
@hint before if c == paren {
  let ghost vp_u = *self; let ghost vp_c = $c;
  proof {
    if vp_il && !self.grew(*old(self)) {
      if vp_m.buffer.heredoc_indent > 0 { lemma_ind_line(self.b(), vp_m.buffer.pcur as int, vp_end, vp_m.buffer.heredoc_indent as int, vp_m.buffer.heredoc_line_indent as int, $c, (self.buffer.heredoc_indent as int, self.buffer.heredoc_line_indent as int)); }
      assert(blank_ch($c) ==> self.ind_to(vp_t)); assert(!blank_ch($c) ==> self.buffer.heredoc_indent == vp_t && (self.buffer.heredoc_indent == 0 || $c == MaybeByte::Some(10) || self.buffer.heredoc_line_indent == -1));
    }
  }
@fn Lexer::tokadd_utf8_unterminated props=C05,C06,C07
@ensures
  final(self).only_cur(*old(self)), final(self).buffer.pcur == old(self).buffer.pcur, final(self).tokenbuf == old(self).tokenbuf, final(self).grew(*old(self)),
@fn Lexer::scan_hex nodefault props=C05,C07
@locals start len numlen s result c hex
@rewrite (c as char).to_string() ==> vp_char_string(c as char)
@requires
  start <= old(self).len(), len <= 0x7fff_ffff, old(self).buffer.input_ok(),
@ensures
  *final(self) == *old(self),
  *final(numlen) == hex_run(old(self).b(), start as int, len as int),
  *final(numlen) <= 6 ==> r == hex_val(old(self).b(), start as int, *final(numlen) as int),
@loop 0
  invariant *self == *old(self), start <= $s <= self.len(), $s - start == $i, $i <= len, forall|k: int| start <= k < $s ==> is_hex(#[trigger] self.b()[k]),
    $s - start <= 6 ==> $result == hex_val(self.b(), start as int, $s - start),
@hint before result <<= 4;
  proof { let r0: usize = $result; let h0: usize = $hex; assert(r0 < 0x1000000 && h0 < 16 ==> (r0 << 4) | h0 == r0 * 16 + h0) by (bit_vector); if $s - start <= 5 { lemma_hex_val(self.b(), start as int, $s - start); } }
@hint before *numlen = s - start;
  proof { lemma_hex_run(self.b(), start as int, len as int, $s - start); }
@fn Lexer::scan_oct nodefault props=C05,C07
@locals start len numlen s result c
@requires
  start <= old(self).len(), len <= 3, old(self).buffer.input_ok(),
@ensures
  *final(self) == *old(self),
  *final(numlen) == oct_run(old(self).b(), start as int, len as int),
  r == oct_val(old(self).b(), start as int, *final(numlen) as int),
@loop 0
  invariant *self == *old(self), start <= $s <= self.len(), $s - start == $i, $i <= len, forall|k: int| start <= k < $s ==> is_oct(#[trigger] self.b()[k]),
    $result == oct_val(self.b(), start as int, $s - start),
@hint before result <<= 3;
  proof { let r0: usize = $result; let h0: usize = ($c - 48) as usize; assert(r0 < 64 && h0 < 8 ==> (r0 << 3) | h0 == r0 * 8 + h0) by (bit_vector); lemma_oct_val(self.b(), start as int, $s - start); }
@hint before *numlen = s - start;
  proof { lemma_oct_run(self.b(), start as int, len as int, $s - start); }
@fn Lexer::is_ascii nodefault props=C05
@requires
  self.wf(), self.buffer.pcur >= 1,
@ensures
  r == (self.b()[self.buffer.pcur - 1] < 128),
@fn Lexer::warn_space_char props=C05,C06
@ensures
  final(self).quiet(*old(self)),
  final(self).nerr() == old(self).nerr(),
@fn Lexer::simple_re_meta props=C05
@ensures
  *final(self) == *old(self),
@fn Lexer::tokcopy nodefault props=C05,C09
@rewrite || vp_panic() ==> || -> (o: &[u8]) requires false { vp_panic() }
@requires
  n <= old(self).buffer.pcur <= old(self).len(),
@ensures
  *final(self) == (Lexer { tokenbuf: final(self).tokenbuf, ..*old(self) }),
  final(self).tokenbuf.bytes.raw@ == old(self).tokenbuf.bytes.raw@ + old(self).b().subrange(old(self).buffer.pcur - n, old(self).buffer.pcur as int),
@fn Lexer::tokaddmbc nodefault props=C05,C07
@rewrite utf8_char.to_string().into_bytes() ==> vp_char_bytes(utf8_char)
@rewrite = &vp_s0[vp_i0] ==> = vp_s0[vp_i0]
@requires
  codepoint <= 0x10ffff, !surrogate(codepoint as int),
@ensures
  *final(self) == (Lexer { tokenbuf: final(self).tokenbuf, ..*old(self) }),
  final(self).tokenbuf.bytes.raw@ == old(self).tokenbuf.bytes.raw@ + utf8(seq![codepoint as char]),
@loop 0
  invariant *self == (Lexer { tokenbuf: self.tokenbuf, ..*old(self) }), $i <= vp_s0@.len(), vp_s0@ == utf8(seq![codepoint as char]),
    self.tokenbuf.bytes.raw@ =~= old(self).tokenbuf.bytes.raw@ + vp_s0@.take($i as int),
@fn Lexer::tokadd_codepoint props=C05,C06,C07
@locals regexp_literal wide numlen codepoint
@requires
  wide || old(self).esc_at(),
@ensures
  final(self).only_cur(*old(self)),
  ({ let b = old(self).b(); let p = old(self).buffer.pcur as int; let n = hex_run(b, p, if wide { old(self).buffer.pend - p } else { 4 }); let v = hex_val(b, p, n);
     &&& final(self).buffer.pcur == p + n && p + n <= old(self).buffer.pend && n >= 0 && (n > 0 ==> is_hex(b[p + n - 1]))
     &&& if (if wide { 1 <= n <= 6 } else { n == 4 }) && v <= 0x10ffff && !surrogate(v) {
         r && final(self).diagnostics == old(self).diagnostics && final(self).tokenbuf.bytes.raw@ == old(self).tokenbuf.bytes.raw@ + (if regexp_literal != 0 { b.subrange(p, p + n) } else { utf8(seq![v as char]) })
       } else { r == (wide && n > 0) && final(self).grew(*old(self)) && final(self).tokenbuf == old(self).tokenbuf } }),
@hint before self.literal_flush(self.buffer.pcur);
  proof {
    lemma_hex_bounds(self.b(), self.buffer.pcur as int, if wide { self.buffer.pend - self.buffer.pcur } else { 4 });
    lemma_hex_val(self.b(), self.buffer.pcur as int, numlen as int);
    if !wide { lemma_run_in_line(self.buffer, self.buffer.pcur as int, numlen as int); }
    if codepoint < 128 { lemma_ascii1(codepoint as char); }
    assert(codepoint <= 0x10ffff ==> ((codepoint & 0xfffff800) == 0xd800 <==> 0xd800 <= codepoint < 0xe000)) by (bit_vector);
  }
@fn Lexer::tokadd_utf8 isolate props=C05,C06,C07
@locals term _symbol_literal regexp_literal open_brace close_brace err_multiple_codepoints second c last pcur
@fnstart
  let ghost vp_o = *self;
  let ghost vp_u = uni(self.b(), self.buffer.pcur as int, self.buffer.pend as int, term);
  proof { lemma_hex_bounds(self.b(), self.buffer.pcur as int, 4); }
@requires
  old(self).esc_at(),
@ensures
  final(self).only_cur(*old(self)), final(self).fwd(*old(self)),
  regexp_literal == 0 ==> final(self).whole(*old(self), uni(old(self).b(), old(self).buffer.pcur as int, old(self).buffer.pend as int, term)), // @C07
@loop 0
  invariant_except_break self.buffer.pcur < self.buffer.pend,
  invariant old(self).wf(), *self == (Lexer { buffer: Buffer { pcur: self.buffer.pcur, ..vp_a.buffer }, ..vp_a }), vp_a.wf(), vp_a.only_cur(*old(self)), old(self).buffer.pcur <= vp_a.buffer.pcur <= self.buffer.pcur <= self.buffer.pend,
    skip_sp(self.b(), vp_a.buffer.pcur as int, self.buffer.pend as int) == skip_sp(self.b(), self.buffer.pcur as int, self.buffer.pend as int),
  ensures self.wf(), $c == MaybeByte::Some(125) ==> self.buffer.pcur < self.buffer.pend, self.buffer.pcur == skip_sp(self.b(), vp_a.buffer.pcur as int, self.buffer.pend as int),
    self.buffer.pcur < self.buffer.pend ==> $c == MaybeByte::Some(self.b()[self.buffer.pcur as int]),
@start
  proof { assert(skip_sp(self.b(), self.buffer.pend as int, self.buffer.pend as int) == self.buffer.pend); }
@before
  let ghost vp_a = *self;
@loop 1
  invariant_except_break $c == MaybeByte::Some(125) ==> self.buffer.pcur < self.buffer.pend,
    self.buffer.pcur < self.buffer.pend ==> $c == MaybeByte::Some(self.b()[self.buffer.pcur as int]),
    regexp_literal == 0 && $second is None ==> self.part(*old(self), vp_u, ulist(self.b(), self.buffer.pcur as int, self.buffer.pend as int, term, vp_first)),
  invariant old(self).wf(), self.wf(), self.only_cur(*old(self)), self.fwd(*old(self)), $last is Some,
    $second is Some ==> self.buffer.pbeg <= $second->Some_0 <= self.buffer.pcur,
    $close_brace == 125, vp_u == uni(old(self).b(), old(self).buffer.pcur as int, old(self).buffer.pend as int, term),
    $err_multiple_codepoints ==> term is None && !vp_first, term is None && !vp_first && $second is None ==> $err_multiple_codepoints, $second is Some ==> $err_multiple_codepoints,
    regexp_literal == 0 && $second is Some ==> vp_u is None,
  ensures $c == MaybeByte::Some(125) ==> self.buffer.pcur < self.buffer.pend && self.b()[self.buffer.pcur as int] == 125,
    regexp_literal == 0 && $c == MaybeByte::Some(125) && $second is None ==> self.part(*old(self), vp_u, Some((Seq::<u8>::empty(), self.buffer.pcur + 1))),
    regexp_literal == 0 && $c != MaybeByte::Some(125) ==> vp_u is None,
@before
  let ghost mut vp_first = true;
  proof { if regexp_literal == 0 { lemma_part_new(*self, *old(self), vp_u); } }
@start
  let ghost vp_c = *self;
@loop 2
  invariant old(self).wf(), *self == (Lexer { buffer: Buffer { pcur: self.buffer.pcur, ..vp_b.buffer }, ..vp_b }), vp_b.wf(), vp_b.only_cur(*old(self)), old(self).buffer.pcur <= vp_b.buffer.pcur <= self.buffer.pcur, self.buffer.pcur <= self.buffer.pend, $last is Some,
    self.buffer.pcur < self.buffer.pend || self.buffer.pend == self.len(),
    skip_sp(self.b(), vp_b.buffer.pcur as int, self.buffer.pend as int) == skip_sp(self.b(), self.buffer.pcur as int, self.buffer.pend as int),
    vp_u == uni(old(self).b(), old(self).buffer.pcur as int, old(self).buffer.pend as int, term),
    regexp_literal == 0 && $second is Some ==> vp_u is None,
    regexp_literal == 0 && $second is None ==> vp_b.part(*old(self), vp_u, ulist(vp_b.b(), skip_sp(vp_b.b(), vp_b.buffer.pcur as int, vp_b.buffer.pend as int), vp_b.buffer.pend as int, term, false)),
  ensures self.wf(), $c == MaybeByte::Some(125) ==> self.buffer.pcur < self.buffer.pend,
    self.buffer.pcur == skip_sp(self.b(), vp_b.buffer.pcur as int, self.buffer.pend as int),
    self.buffer.pcur < self.buffer.pend ==> $c == MaybeByte::Some(self.b()[self.buffer.pcur as int]),
@start
  proof { assert(skip_sp(self.b(), self.buffer.pend as int, self.buffer.pend as int) == self.buffer.pend); }
@before
  let ghost vp_b = *self;
  proof {
    lemma_last_line(self.buffer); vp_first = false;
    lemma_skip_sp(self.b(), self.buffer.pcur as int, self.buffer.pend as int);
    lemma_part_step(*self, vp_c, *old(self), vp_u, utf8(seq![hex_val(self.b(), vp_c.buffer.pcur as int, hex_run(self.b(), vp_c.buffer.pcur as int, self.buffer.pend - vp_c.buffer.pcur)) as char]), ulist(self.b(), skip_sp(self.b(), self.buffer.pcur as int, self.buffer.pend as int), self.buffer.pend as int, term, false));
  }
@hint before if regexp_literal != 0 { self.tokadd(close_brace)
  proof { if self.part(*old(self), vp_u, Some((Seq::<u8>::empty(), self.buffer.pcur + 1))) { lemma_part_end(*self, *old(self), vp_u, self.buffer.pcur + 1); } }
@fn Lexer::tokadd_escape_eof props=C05,C06
@ensures
  r is Err, final(self).only_cur(*old(self)), final(self).buffer.pcur == old(self).buffer.pcur,
@fn Lexer::tokadd_escape props=C05,C06,C07
@locals numlen c octal other
@hint after self.scan_oct(self.buffer.pcur, 3, &mut numlen);
  proof { lemma_oct_bounds(self.b(), self.buffer.pcur as int, 3); lemma_run_in_line(self.buffer, self.buffer.pcur as int, $numlen as int); }
@requires
  old(self).buffer.in_line(), old(self).buffer.pcur >= 1,
@ensures
  final(self).only_cur(*old(self)), final(self).fwd(*old(self)),
@fn Lexer::read_escape_eof props=C05,C06,C07
@ensures
  r == MaybeByte::Some(0), final(self).only_cur(*old(self)), final(self).buffer.pcur == old(self).buffer.pcur, final(self).grew(*old(self)), final(self).tokenbuf == old(self).tokenbuf,
@fn Lexer::tok_hex props=C05,C06,C07
@requires
  old(self).esc_at(),
@hint before if *numlen == 0 {
  proof { lemma_hex_bounds(self.b(), self.buffer.pcur as int, 2); lemma_hex_val(self.b(), self.buffer.pcur as int, *numlen as int); lemma_run_in_line(self.buffer, self.buffer.pcur as int, *numlen as int); }
@ensures
  final(self).only_cur(*old(self)), final(self).tokenbuf == old(self).tokenbuf,
  ({ let b = old(self).b(); let p = old(self).buffer.pcur as int; let n = hex_run(b, p, 2);
     &&& *final(numlen) == n
     &&& final(self).buffer.pcur == p + n
     &&& n == 0 ==> final(self).grew(*old(self)) && r == MaybeByte::Some(0)
     &&& n > 0 ==> final(self).diagnostics == old(self).diagnostics && final(self).buffer.ptok == old(self).buffer.ptok && r == MaybeByte::Some(hex_val(b, p, n) as u8) }),
@fn Lexer::read_escape props=C05,C06,C07
@attr #[verifier::rlimit(400)]
@locals flags numlen c c c c2 c2
@rewrite |byte| MaybeByte::Some(byte | 0x80) ==> |byte: u8| -> (o: MaybeByte) ensures o == MaybeByte::Some(byte | 0x80) { MaybeByte::Some(byte | 0x80) }
@rewrite |c| MaybeByte::Some(c | 0x80) ==> |c: u8| -> (o: MaybeByte) ensures o == MaybeByte::Some(c | 0x80) { MaybeByte::Some(c | 0x80) }
@rewrite |c| MaybeByte::Some(c & 0x9f) ==> |c: u8| -> (o: MaybeByte) ensures o == MaybeByte::Some(c & 0x9f) { MaybeByte::Some(c & 0x9f) }
@ensures
  r is Some, final(self).fwd(*old(self)), final(self).buffer.nextline == 0, final(self).tokenbuf == old(self).tokenbuf, final(self).buffer.frame(old(self).buffer), final(self).strterm == old(self).strterm,
  old(self).esc_at() ==> final(self).esc_read(*old(self), r, flags & 2 != 0, flags & 1 != 0), // @C07
@fnstart
  proof { lemma_esc_flags(flags); }
@hint after let c = self.scan_oct(self.buffer.pcur, 3, &mut numlen);
  proof { assert(c as u8 == (c % 256) as u8) by (bit_vector); lemma_oct_bounds(self.b(), self.buffer.pcur as int, 3); lemma_run_in_line(self.buffer, self.buffer.pcur as int, $numlen as int); }
