@prelude
pub open spec fn NL() -> u8 { 10u8 }
/// the line table `lines` is exactly the partition of `bytes` at newlines
/*hidden*/ pub open spec fn lines_ok(lines: Seq<SourceLine>, bytes: Seq<u8>) -> bool {
    &&& lines.len() >= 1
    &&& lines[0].start == 0
    &&& forall|i: int| 0 <= i < lines.len() ==> (#[trigger] lines[i]).start <= lines[i].end && lines[i].end <= bytes.len()
    &&& forall|i: int| #![trigger lines[i]] 0 <= i < lines.len() - 1 ==> lines[i].start < lines[i].end && bytes[lines[i].end - 1] == NL() && !lines[i].ends_with_eof
    &&& forall|i: int, j: int| #![trigger lines[i], lines[j]] 0 <= i < lines.len() - 1 && j == i + 1 ==> lines[j].start == lines[i].end
    &&& lines.last().end == bytes.len() && lines.last().ends_with_eof
    &&& forall|i: int, k: int| #![trigger lines[i], bytes[k]] 0 <= i < lines.len() && lines[i].start <= k < lines[i].end && (i < lines.len() - 1 ==> k < lines[i].end - 1) ==> bytes[k] != NL()
}
/// what line_col_for_pos must answer
pub open spec fn is_line_col(lines: Seq<SourceLine>, bytes: Seq<u8>, pos: int, l: int, c: int) -> bool {
    &&& 0 <= l < lines.len()
    &&& 0 <= c
    &&& lines[l].start + c == pos
    &&& pos <= bytes.len()
    &&& pos < bytes.len() ==> pos < lines[l].end
    &&& pos == bytes.len() ==> l == lines.len() - 1
}
proof fn lemma_lines_monotone(lines: Seq<SourceLine>, bytes: Seq<u8>, i: int, j: int)
    requires lines_ok(lines, bytes), 0 <= i < j < lines.len(),
    ensures lines[i].end <= lines[j].start,
    decreases j - i,
{ assert(lines[i].start <= lines[i].end); if i + 1 < j { lemma_lines_monotone(lines, bytes, i, j - 1); assert(lines[j-1].start <= lines[j-1].end); } }
/// (line, col) is unique: two answers for one position agree
proof fn lemma_line_col_unique(lines: Seq<SourceLine>, bytes: Seq<u8>, pos: int, l1: int, c1: int, l2: int, c2: int)
    requires lines_ok(lines, bytes), is_line_col(lines, bytes, pos, l1, c1), is_line_col(lines, bytes, pos, l2, c2),
    ensures l1 == l2, c1 == c2,
{
    if l1 < l2 { lemma_lines_monotone(lines, bytes, l1, l2); }
    if l2 < l1 { lemma_lines_monotone(lines, bytes, l2, l1); }
}
/// distinct positions have distinct answers, ordered like the positions
proof fn lemma_line_col_injective(lines: Seq<SourceLine>, bytes: Seq<u8>, p1: int, p2: int, l1: int, c1: int, l2: int, c2: int)
    requires lines_ok(lines, bytes), is_line_col(lines, bytes, p1, l1, c1), is_line_col(lines, bytes, p2, l2, c2), p1 < p2,
    ensures l1 < l2 || (l1 == l2 && c1 < c2),
{
    if l2 < l1 { lemma_lines_monotone(lines, bytes, l2, l1); }
}
/// loop invariant of update_bytes: finished lines + the open line cover bytes[0..n]
pub open spec fn lines_partial(lines: Seq<SourceLine>, line: SourceLine, bytes: Seq<u8>, n: int) -> bool {
    &&& n <= bytes.len()
    &&& line.start <= n
    &&& lines.len() == 0 ==> line.start == 0
    &&& lines.len() > 0 ==> lines[0].start == 0 && lines.last().end == line.start
    &&& forall|j: int| 0 <= j < lines.len() ==> (#[trigger] lines[j]).start < lines[j].end && lines[j].end <= n && bytes[lines[j].end - 1] == NL() && !lines[j].ends_with_eof
    &&& forall|j: int, m: int| #![trigger lines[j], lines[m]] 0 <= j < lines.len() - 1 && m == j + 1 ==> lines[m].start == lines[j].end
    &&& forall|j: int, k: int| #![trigger lines[j], bytes[k]] 0 <= j < lines.len() && lines[j].start <= k < lines[j].end - 1 ==> bytes[k] != NL()
    &&& forall|k: int| #![trigger bytes[k]] line.start <= k < n ==> bytes[k] != NL()
}
impl DecodedInput {
    pub open spec fn wf(&self) -> bool { lines_ok(self.lines@, self.bytes@) }
}
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn vp_lossy(b: &[u8]) -> (r: String) ensures r@ == lossy(b@) { String::from_utf8_lossy(b).into_owned() }
/// trusted: lossy decoding keeps a leading run of ASCII bytes and introduces no other ASCII prefix
pub open spec fn ascii_chars(p: Seq<u8>) -> Seq<char> { Seq::new(p.len(), |i: int| p[i] as char) }
pub broadcast axiom fn axiom_lossy_prefix(b: Seq<u8>, p: Seq<char>)
    requires forall|i: int| 0 <= i < p.len() ==> (p[i] as u32) < 128,
    ensures #[trigger] is_char_prefix(p, lossy(b)) <==> (p.len() <= b.len() && forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> b[i] as u32 == p[i] as u32);
pub open spec fn is_char_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> s[i] == p[i] }
pub trait VpPat { spec fn pv(&self) -> Seq<char>; fn vp_pre(&self, s: &str) -> (r: bool) ensures r == is_char_prefix(self.pv(), s@); }
impl VpPat for char { open spec fn pv(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn vp_pre(&self, s: &str) -> (r: bool) { s.starts_with(*self) } }
impl<'a> VpPat for &'a str { open spec fn pv(&self) -> Seq<char> { (*self)@ } #[verifier::external_body] fn vp_pre(&self, s: &str) -> (r: bool) { s.starts_with(*self) } }
/// shadows the inherent `str` method on String receivers
pub trait VpStringExt { spec fn sv(&self) -> Seq<char>; fn starts_with<P: VpPat>(&self, p: P) -> (r: bool) ensures r == is_char_prefix(p.pv(), self.sv()); fn replace(&self, a: char, b: &str) -> String; }
impl VpStringExt for String { open spec fn sv(&self) -> Seq<char> { self@ } fn starts_with<P: VpPat>(&self, p: P) -> (r: bool) { p.vp_pre(self.as_str()) } #[verifier::external_body] fn replace(&self, a: char, b: &str) -> String { self.as_str().replace(a, b) } }
/// what Comment::new must say about the text under its location
pub open spec fn comment_kind(b: Seq<u8>, begin: int, end: int) -> CommentType {
    if 0 <= begin < end <= b.len() && b[begin] == 35 { CommentType::Inline }
    else if 0 <= begin && begin + 6 <= end <= b.len() && b[begin] == 61 && b[begin+1] == 98 && b[begin+2] == 101 && b[begin+3] == 103 && b[begin+4] == 105 && b[begin+5] == 110 { CommentType::Document }
    else { CommentType::Unknown }
}
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub assume_specification [ str::to_uppercase ] (s: &str) -> (r: String) ensures r@ == upper(s@);
pub open spec fn builtin_encoding(e: Seq<char>) -> bool { upper(e) == "UTF-8"@ || upper(e) == "ASCII-8BIT"@ || upper(e) == "BINARY"@ }
#[verifier::external_body]
pub struct Decoder { f: Box<u8> }
/// what the user-supplied decoder answers (arbitrary, but a function of its arguments)
pub uninterp spec fn decoder_says(d: Decoder, e: Seq<char>, b: Seq<u8>) -> DecoderResult;
impl Decoder {
    #[verifier::external_body]
    pub fn call(&self, encoding: String, input: Vec<u8>) -> (r: DecoderResult) ensures r == decoder_says(*self, encoding@, input@) { unimplemented!() }
}
pub open spec fn decoded_as(e: Seq<char>, b: Seq<u8>, d: Option<Decoder>, r: DecoderResult) -> bool {
    if builtin_encoding(e) { r is Ok && r->Ok_0@ == b }
    else if d is Some { r == decoder_says(d->Some_0, e, b) }
    else { r is Err && r->Err_0 is UnsupportedEncoding && r->Err_0->UnsupportedEncoding_0@ == e }
}
pub assume_specification<T> [ <[T]>::to_vec ] (s: &[T]) -> (r: Vec<T>) where T: Clone ensures r@ == s@;
@end
@file src/source/source_line.rs all
@fn SourceLine::len props=C02
@requires
  self.start <= self.end,
@ensures
  r == self.end - self.start,
@fn SourceLine::is_empty props=C02
@requires
  self.start <= self.end,
@ensures
  r == (self.end == self.start),
@fn SourceLine::line_end props=C03
@requires
  !self.ends_with_eof ==> self.end >= 1,
@ensures
  r == (if self.ends_with_eof { self.end as int } else { self.end - 1 }),
@file src/source/decoded_input.rs all
@skip DecodedInput::named
@fn DecodedInput::into_bytes props=C03
@ensures
  r@ == self.bytes@,
@fn DecodedInput::update_bytes props=C01 terminates
@locals bytes line lines idx c
@ensures
  final(self).bytes@ == bytes@,
  final(self).name == old(self).name,
  lines_ok(final(self).lines@, bytes@),
@loop 0
  invariant
    lines_partial($lines@, $line, bytes@, $i as int),
  decreases bytes.len() - $i
@fn DecodedInput::line_col_for_pos props=C02 terminates
@locals pos last_line lineno line
@requires
  self.wf(),
@ensures
  pos > self.bytes@.len() ==> r is None,
  pos <= self.bytes@.len() ==> r is Some && is_line_col(self.lines@, self.bytes@, pos as int, r->Some_0.0 as int, r->Some_0.1 as int),
@loop 0
  invariant
    $i <= self.lines@.len(),
    $pos + (if $i == 0 { 0 } else { self.lines@[$i - 1].end as int }) == vp_pos0,
    vp_pos0 != self.bytes@.len(),
  decreases self.lines@.len() - $i
@fnstart
  let ghost vp_pos0 = pos as int;
@fn DecodedInput::line_at props=C03
@requires
  idx < self.lines@.len(),
@ensures
  *r == self.lines@[idx as int],
@fn DecodedInput::substr_at props=C03
@ensures
  (start <= end && end <= self.bytes@.len()) ==> r is Some && r->Some_0@ == self.bytes@.subrange(start as int, end as int),
  !(start <= end && end <= self.bytes@.len()) ==> r is None,
@fn DecodedInput::len props=C02,C03
@ensures
  r == self.bytes@.len(),
@fn DecodedInput::as_shared_bytes props=C03
@ensures
  r@ == self.bytes@,

@file $AST/src/loc.rs all
@derive Loc Clone, Copy
@skip Loc::print Loc::to_range Loc::maybe_join
@fn Loc::size
@requires
  self.begin <= self.end,
@ensures
  r == self.end - self.begin,
@fn Loc::with_begin
@ensures
  r.begin == begin && r.end == self.end,
@fn Loc::with_end
@ensures
  r.begin == self.begin && r.end == end,
@fn Loc::resize
@requires
  self.begin + new_size <= usize::MAX,
@ensures
  r.begin == self.begin && r.end == self.begin + new_size,
@fn Loc::join
@ensures
  r.begin == (if self.begin <= other.begin { self.begin } else { other.begin }),
  r.end == (if self.end >= other.end { self.end } else { other.end }),
@fn Loc::is_empty
@ensures
  r == (self.begin == self.end),
@fn Loc::adjust_begin
@requires
  self.begin <= i32::MAX, 0 <= self.begin + delta <= i32::MAX,
@ensures
  r.begin == self.begin + delta && r.end == self.end,
@fn Loc::adjust_end
@requires
  self.end <= i32::MAX, 0 <= self.end + d <= i32::MAX,
@ensures
  r.begin == self.begin && r.end == self.end + d,
@file src/loc_ext.rs all
@implextra trait LocExt
  spec fn lb(&self) -> usize;
  spec fn le(&self) -> usize;
@implextra LocExt for Loc
  open spec fn lb(&self) -> usize { self.begin }
  open spec fn le(&self) -> usize { self.end }
@fn LocExt::begin_line_col props=C02,C03
@requires
  input.wf(),
@ensures
  self.lb() > input.bytes@.len() ==> r is None,
  self.lb() <= input.bytes@.len() ==> r is Some && is_line_col(input.lines@, input.bytes@, self.lb() as int, r->Some_0.0 as int, r->Some_0.1 as int),
@fn LocExt::expand_to_line props=C03
@requires
  input.wf(),
@ensures
  self.lb() > input.bytes@.len() ==> r is None,
  self.lb() <= input.bytes@.len() ==> r is Some && ({
     let l = r->Some_0.0 as int; let loc = r->Some_0.1;
     &&& is_line_col(input.lines@, input.bytes@, self.lb() as int, l, self.lb() - input.lines@[l].start)
     &&& loc.begin == input.lines@[l].start
     &&& loc.end == (if l == input.lines@.len() - 1 { input.lines@[l].end as int } else { input.lines@[l].end - 1 })
  }),
@fn LocExt::source props=C03
@ensures
  (self.lb() <= self.le() && self.le() <= input.bytes@.len()) ==> r is Some && r->Some_0@ == lossy(input.bytes@.subrange(self.lb() as int, self.le() as int)),
  !(self.lb() <= self.le() && self.le() <= input.bytes@.len()) ==> r is None,
@file src/source/comment.rs all
@fn Comment::new props=C15
@ensures
  r.location == location,
  r.kind == comment_kind(input.bytes@, location.begin as int, location.end as int),
@fnstart
  broadcast use axiom_lossy_prefix;
  proof {
    reveal_strlit("=begin");
    let p = "=begin"@;
    assert(p.len() == 6 && p[0] == '=' && p[1] == 'b' && p[2] == 'e' && p[3] == 'g' && p[4] == 'i' && p[5] == 'n');
    let q = seq!['#']; assert(q[0] == '#');
    if location.begin <= location.end && location.end <= input.bytes@.len() {
      let t = input.bytes@.subrange(location.begin as int, location.end as int);
      axiom_lossy_prefix(t, p); axiom_lossy_prefix(t, q);
      assert(t.len() == location.end - location.begin);
    }
  }
@file src/source/decoder.rs all
@skip Decoder impl_Decoder DecoderFn
@fn DecoderResult::into_result props=C04
@ensures
  self is Ok ==> r is Ok && r->Ok_0 == self->Ok_0,
  self is Err ==> r is Err && r->Err_0 == self->Err_0,
@fn decode_input props=C04
@ensures
  decoded_as(enc@, input@, *old(decoder), r),
  *final(decoder) == *old(decoder),
@file src/source/input.rs all
@skip Input::new
@fn Input::update_bytes props=C01
@ensures
  final(self).decoded.bytes@ == bytes@,
  final(self).decoded.wf(),
  final(self).decoder == old(self).decoder,
@fn Input::byte_at
@ensures
  idx < self.decoded.bytes@.len() ==> r == Some(self.decoded.bytes@[idx as int]),
  idx >= self.decoded.bytes@.len() ==> r is None,
@fn Input::unchecked_byte_at
@requires
  idx < self.decoded.bytes@.len(),
@ensures
  r == self.decoded.bytes@[idx as int],
@fn Input::substr_at props=C03
@ensures
  (start <= end && end <= self.decoded.bytes@.len()) ==> r is Some && r->Some_0@ == self.decoded.bytes@.subrange(start as int, end as int),
  !(start <= end && end <= self.decoded.bytes@.len()) ==> r is None,
@fn Input::line_col_for_pos props=C02
@requires
  self.decoded.wf(),
@ensures
  pos > self.decoded.bytes@.len() ==> r is None,
  pos <= self.decoded.bytes@.len() ==> r is Some && is_line_col(self.decoded.lines@, self.decoded.bytes@, pos as int, r->Some_0.0 as int, r->Some_0.1 as int),
@fn Input::len
@ensures
  r == self.decoded.bytes@.len(),
@fn Input::line_at
@requires
  idx < self.decoded.lines@.len(),
@ensures
  *r == self.decoded.lines@[idx as int],
@fn Input::lines_count
@ensures
  r == self.decoded.lines@.len(),
@fn Input::set_encoding props=C01,C04
@requires
  old(self).decoded.wf(),
@ensures
  final(self).decoded.wf(),
  final(self).decoder == old(self).decoder,
  r is Err ==> final(self).decoded == old(self).decoded,
  builtin_encoding(encoding@) ==> r is Ok && final(self).decoded.bytes@ == old(self).decoded.bytes@,
  !builtin_encoding(encoding@) && old(self).decoder is None ==> r is Err && r->Err_0 is UnsupportedEncoding && r->Err_0->UnsupportedEncoding_0@ == encoding@,
  !builtin_encoding(encoding@) && old(self).decoder is Some ==> ({
     let d = decoder_says(old(self).decoder->Some_0, encoding@, old(self).decoded.bytes@);
     &&& d is Ok ==> r is Ok && final(self).decoded.bytes@ == d->Ok_0@
     &&& d is Err ==> r == Err::<(), InputError>(d->Err_0)
  }),
@fn Input::as_shared_bytes props=C03
@ensures
  r@ == self.decoded.bytes@,
@fn Input::into_bytes props=C03
@ensures
  r@ == self.decoded.bytes@,
