@prelude
pub assume_specification<T> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool) where T: std::cmp::PartialEq
    ensures <T as PartialEqSpec<T>>::obeys_eq_spec() ==> r == exists|i: int| 0 <= i < s@.len() && <T as PartialEqSpec<T>>::eq_spec(&s@[i], x);
pub assume_specification [u8::is_ascii] (c: &u8) -> (r: bool) ensures r == (*c < 128);
pub assume_specification [u8::is_ascii_digit] (c: &u8) -> (r: bool) ensures r == is_digit(*c);
pub assume_specification [u8::is_ascii_alphabetic] (c: &u8) -> (r: bool) ensures r == is_alpha(*c);
pub assume_specification [u8::is_ascii_uppercase] (c: &u8) -> (r: bool) ensures r == (65 <= *c <= 90);
pub assume_specification [u8::is_ascii_lowercase] (c: &u8) -> (r: bool) ensures r == (97 <= *c <= 122);
pub assume_specification [u8::is_ascii_alphanumeric] (c: &u8) -> (r: bool) ensures r == is_alnum(*c);
pub assume_specification [u8::is_ascii_hexdigit] (c: &u8) -> (r: bool) ensures r == is_hex(*c);
pub assume_specification [u8::is_ascii_punctuation] (c: &u8) -> (r: bool) ensures r == (33 <= *c <= 47 || 58 <= *c <= 64 || 91 <= *c <= 96 || 123 <= *c <= 126);
pub assume_specification [u8::is_ascii_whitespace] (c: &u8) -> (r: bool) ensures r == (*c == 32 || *c == 9 || *c == 10 || *c == 12 || *c == 13);
pub assume_specification [u8::is_ascii_control] (c: &u8) -> (r: bool) ensures r == (*c < 32 || *c == 127);
pub assume_specification [u8::is_ascii_graphic] (c: &u8) -> (r: bool) ensures r == (33 <= *c <= 126);
/// trusted for the characters a byte can be cast to
pub assume_specification [char::is_control] (c: char) -> (r: bool) ensures (c as u32) < 256 ==> r == ((c as u32) < 32 || (127 <= (c as u32) && (c as u32) < 160));
pub open spec fn is_digit(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn is_alpha(c: u8) -> bool { 65 <= c <= 90 || 97 <= c <= 122 }
pub open spec fn is_alnum(c: u8) -> bool { is_digit(c) || is_alpha(c) }
pub open spec fn is_hex(c: u8) -> bool { is_digit(c) || 65 <= c <= 70 || 97 <= c <= 102 }
pub open spec fn is_space(c: u8) -> bool { c == 32 || 9 <= c <= 13 }
pub open spec fn is_ctl(c: u8) -> bool { c < 32 || 127 <= c < 160 }
/// $! $" $$ $& $' $* $+ $, $. $/ $0 $: $; $< $= $> $? $@ $\ $` $~
pub open spec fn is_gpunct(c: u8) -> bool {
    c == 33 || c == 34 || c == 36 || c == 38 || c == 39 || c == 42 || c == 43 || c == 44 || c == 46 || c == 47 || c == 48 || c == 58 || c == 59 || c == 60 || c == 61 || c == 62 || c == 63 || c == 64 || c == 92 || c == 96 || c == 126
}
/// the letter of the escape that would have produced this white space character
pub open spec fn esc_code(m: MaybeByte) -> Option<u8> {
    if m == MaybeByte::Some(32u8) { Some(115u8) } else if m == MaybeByte::Some(10u8) { Some(110u8) } else if m == MaybeByte::Some(9u8) { Some(116u8) }
    else if m == MaybeByte::Some(11u8) { Some(118u8) } else if m == MaybeByte::Some(13u8) { Some(114u8) } else if m == MaybeByte::Some(12u8) { Some(102u8) } else { None }
}
impl PartialEqSpecImpl<u8> for MaybeByte {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &u8) -> bool { *self == MaybeByte::Some(*o) }
}
impl PartialEqSpecImpl<Option<u8>> for MaybeByte {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &Option<u8>) -> bool { match self { MaybeByte::Some(c) => *o == Some(*c), MaybeByte::EndOfInput => *o is None } }
}
impl PartialEqSpecImpl for MaybeByte {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &MaybeByte) -> bool { *self == *o }
}
pub open spec fn mb_cmp(a: MaybeByte, o: u8) -> std::cmp::Ordering {
    match a { MaybeByte::Some(c) => if c < o { std::cmp::Ordering::Less } else if c == o { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }, MaybeByte::EndOfInput => std::cmp::Ordering::Less }
}
impl PartialOrdSpecImpl<u8> for MaybeByte {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &u8) -> Option<std::cmp::Ordering> { Some(mb_cmp(*self, *o)) }
}
impl PartialEqSpecImpl<str> for TokenBuf {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &str) -> bool { self.bytes.raw@ == utf8(o@) }
}
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
pub open spec fn any_of(v: i32, m: i32) -> bool { (v & m) != 0 }
pub open spec fn all_of(v: i32, m: i32) -> bool { (v & m) == m }
pub assume_specification [std::str::from_utf8] (b: &[u8]) -> (r: Result<&str, std::str::Utf8Error>)
    ensures r is Ok <==> valid_utf8(b@), r is Ok ==> utf8(r->Ok_0@) == b@;
// derive(Clone), expanded
impl Clone for Bytes { fn clone(&self) -> (r: Self) ensures r.raw@ == self.raw@ { Bytes { raw: self.raw.clone() } } }
impl Clone for TokenBuf { fn clone(&self) -> (r: Self) ensures r.bytes.raw@ == self.bytes.raw@ { TokenBuf { bytes: self.bytes.clone() } } }
impl VpDefault for TokenBuf { open spec fn is_default(&self) -> bool { self.bytes.raw@ == Seq::<u8>::empty() } #[verifier::external_body] fn vp_default() -> (r: Self) { unimplemented!() } }
@end
@file src/maybe_byte.rs all
@derive MaybeByte Clone, Copy
@fn MaybeByte::is_eof props=C17
@ensures
  r == (*self is EndOfInput),
@fn MaybeByte::is_some props=C17
@ensures
  r == (*self is Some),
@fn MaybeByte::expect props=C17,C05
@requires
  *self is Some,
@ensures
  *self == MaybeByte::Some(r),
@fn MaybeByte::as_option props=C17
@ensures
  *self is Some ==> r == Some(self->Some_0),
  *self is EndOfInput ==> r is None,
@fn MaybeByte::is_ascii props=C17
@ensures
  r == (*self is Some && self->Some_0 < 128),
@fn MaybeByte::is_alpha props=C17
@ensures
  r == (*self is Some && is_alpha(self->Some_0)),
@fn MaybeByte::is_digit props=C17
@ensures
  r == (*self is Some && is_digit(self->Some_0)),
@fn MaybeByte::is_alnum props=C17
@ensures
  r == (*self is Some && is_alnum(self->Some_0)),
@fn MaybeByte::is_hexdigit props=C17
@ensures
  r == (*self is Some && is_hex(self->Some_0)),
@fn MaybeByte::is_space props=C17
@ensures
  r == (*self is Some && is_space(self->Some_0)),
@fn MaybeByte::is_global_name_punct props=C17
@ensures
  r == (*self is Some && is_gpunct(self->Some_0)),
@fn MaybeByte::is_control props=C17
@ensures
  r == (*self is Some && is_ctl(self->Some_0)),
@fn MaybeByte::map props=C17
@requires
  *self is Some ==> f.requires((self->Some_0,)),
@ensures
  *self is Some ==> f.ensures((self->Some_0,), r),
  *self is EndOfInput ==> r is EndOfInput,
@fn MaybeByte::escaped_control_code props=C17
@ensures
  r == esc_code(*self),
@fn <MaybeByteNew<u8>_for_MaybeByte>::new props=C17
@ensures
  r == MaybeByte::Some(byte),
@fn <PartialEq<u8>_for_MaybeByte>::eq props=C17
@fn <PartialEq<Option<u8>>_for_MaybeByte>::eq props=C17
@fn <PartialEq_for_MaybeByte>::eq props=C17
@fn <PartialOrd<u8>_for_MaybeByte>::partial_cmp props=C17
@file $AST/src/bytes.rs all
@skip Default_for_Bytes Bytes::to_string Bytes::into_string std::ops::Index<usize>_for_Bytes Bytes::as_str_lossy Bytes::is_valid_utf8 Bytes::to_string_lossy
@fn Bytes::new props=C17
@ensures
  r.raw == raw,
@fn Bytes::as_raw props=C17
@ensures
  *r == self.raw,
@fn Bytes::into_raw props=C17
@ensures
  r == self.raw,
@fn Bytes::set_raw props=C17
@ensures
  final(self).raw == raw,
@fn Bytes::push props=C17
@ensures
  final(self).raw@ == old(self).raw@.push(item),
@fn Bytes::empty props=C17
@ensures
  r.raw@ == Seq::<u8>::empty(),
@fn Bytes::is_empty props=C17
@ensures
  r == (self.raw@.len() == 0),
@fn Bytes::len props=C17
@ensures
  r == self.raw@.len(),
@fn Bytes::clear props=C17
@ensures
  final(self).raw@ == Seq::<u8>::empty(),
@file src/token_buf.rs all
@fn TokenBuf::new props=C17
@ensures
  r.bytes.raw@ == bytes@,
@fn TokenBuf::take props=C17
@ensures
  r.bytes.raw@ == old(self).bytes.raw@,
  final(self).bytes.raw@ == Seq::<u8>::empty(),
@fn TokenBuf::push props=C17
@ensures
  final(self).bytes.raw@ == old(self).bytes.raw@.push(byte),
@fn TokenBuf::append props=C17 terminates
@ensures
  final(self).bytes.raw@ == old(self).bytes.raw@ + bytes@,
@loop 0
  invariant
    self.bytes.raw@ =~= old(self).bytes.raw@ + bytes@.take($i as int),
    $i <= bytes@.len(),
  decreases bytes@.len() - $i
@fn TokenBuf::borrow_string props=C17
@ensures
  r is Ok <==> valid_utf8(self.bytes.raw@),
  r is Ok ==> utf8(r->Ok_0@) == self.bytes.raw@,
  r is Err ==> r->Err_0@ == self.bytes.raw@,
@fn TokenBuf::len props=C17
@ensures
  r == self.bytes.raw@.len(),
@fn TokenBuf::clear props=C17
@ensures
  final(self).bytes.raw@ == Seq::<u8>::empty(),
@fn <PartialEq<str>_for_TokenBuf>::eq props=C17
@file src/lex_state.rs all
@derive LexState Clone, Copy
@skip Default_for_LexState
@fn LexState::is props=C16
@ensures
  r == (self.value == value),
@fn LexState::is_some props=C16
@ensures
  r == any_of(self.value, states),
@fn LexState::is_all props=C16
@ensures
  r == all_of(self.value, states),
@fn LexState::set props=C16
@ensures
  final(self).value == value,
@fn LexState::get props=C16
@ensures
  r == self.value,
@fn LexState::is_after_operator props=C16
@ensures
  r == any_of(self.value, EXPR_FNAME | EXPR_DOT),
@fn LexState::is_end props=C16
@ensures
  r == any_of(self.value, EXPR_END | EXPR_ENDARG | EXPR_ENDFN),
@fn LexState::is_arg props=C16
@ensures
  r == any_of(self.value, EXPR_ARG | EXPR_CMDARG),
@fn LexState::is_label_possible props=C16
@ensures
  r == ((any_of(self.value, EXPR_LABEL | EXPR_ENDFN) && !cmd_state) || any_of(self.value, EXPR_ARG | EXPR_CMDARG)),
@fn LexState::is_spacearg props=C16
@ensures
  r == (any_of(self.value, EXPR_ARG | EXPR_CMDARG) && space_seen && !(c is Some && is_space(c->Some_0))),
@fn LexState::is_beg props=C16
@ensures
  r == (any_of(self.value, EXPR_BEG | EXPR_MID | EXPR_CLASS) || all_of(self.value, EXPR_ARG | EXPR_LABELED)),
