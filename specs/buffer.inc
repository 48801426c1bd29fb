@prelude
use std::convert::TryFrom;
/// reading position after the character at p (a CRLF pair is read as one newline)
pub open spec fn is_crlf(b: Seq<u8>, p: int, end: int) -> bool { p + 1 < end && b[p] == 13 && b[p + 1] == 10 }
pub open spec fn adv(b: Seq<u8>, p: int, end: int) -> int { if is_crlf(b, p, end) { p + 2 } else { p + 1 } }
pub open spec fn chr(b: Seq<u8>, p: int, end: int) -> u8 { if is_crlf(b, p, end) { 10 } else { b[p] } }
/// where pushing back one character goes
pub open spec fn back(b: Seq<u8>, p: int, beg: int) -> int { if p - 1 > beg && b[p - 1] == 10 && b[p - 2] == 13 { p - 2 } else { p - 1 } }
/// p is not in the middle of a CRLF pair
pub open spec fn at_char(b: Seq<u8>, p: int, beg: int, end: int) -> bool { p > beg && p < end && b[p] == 10 ==> b[p - 1] != 13 }
pub open spec fn is_identch(c: u8) -> bool { is_alnum(c) || c == 95 || c >= 128 }
pub open spec fn is_ws(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 12 || c == 13 }
pub open spec fn skip_ws(b: Seq<u8>, p: int, end: int) -> int
    decreases end - p
{ if p < end && 0 <= p < b.len() && is_ws(b[p]) { skip_ws(b, p + 1, end) } else { p } }
pub open spec fn bom(b: Seq<u8>) -> bool { b.len() >= 3 && b[0] == 0xef && b[1] == 0xbb && b[2] == 0xbf }
/// the word is at p, and no further word character follows
pub open spec fn word_at(b: Seq<u8>, p: int, w: Seq<u8>, end: int) -> bool {
    let q = p + w.len();
    q <= b.len() && b.subrange(p, q) == w && (q == end || (q < b.len() && (is_space(b[q]) || b[q] == 0 || b[q] == 4 || b[q] == 26)))
}
/// the line b[beg..end) consists of exactly `eos` (after white space, if indented) and an optional line terminator
pub open spec fn is_terminator_line(b: Seq<u8>, beg: int, end: int, eos: Seq<u8>, indent: bool) -> bool {
    let p = if indent { skip_ws(b, beg, end) } else { beg };
    let q = p + eos.len();
    &&& q <= end
    &&& b.subrange(p, q) == eos
    &&& (q == end || b[q] == 10 || is_crlf(b, q, end))
}
/// the line table is determined by the bytes
proof fn lemma_lines_unique_upto(a: Seq<SourceLine>, b: Seq<SourceLine>, bytes: Seq<u8>, i: int)
    requires lines_ok(a, bytes), lines_ok(b, bytes), 0 <= i < a.len(),
    ensures i < b.len(), a[i] == b[i], i == a.len() - 1 <==> i == b.len() - 1,
    decreases i
{
    if i > 0 {
        lemma_lines_unique_upto(a, b, bytes, i - 1);
        assert(a[i].start == a[i - 1].end && b[i].start == b[i - 1].end);
    }
    assert(a[i].start == b[i].start);
    if a[i].end < b[i].end { if i < a.len() - 1 { assert(bytes[a[i].end - 1] == NL()); assert(b[i].start <= a[i].end - 1 < b[i].end - 1); } else { assert(a.last() == a[i]); assert(a[i].end == bytes.len()); } assert(false); }
    if b[i].end < a[i].end { if i < b.len() - 1 { assert(bytes[b[i].end - 1] == NL()); assert(a[i].start <= b[i].end - 1 < a[i].end - 1); } else { assert(b.last() == b[i]); assert(b[i].end == bytes.len()); } assert(false); }
    if i == a.len() - 1 { assert(a.last() == a[i]); if i < b.len() - 1 { assert(b[i].end == bytes.len()); assert(bytes[b[i].end - 1] == NL()); assert(a[i].start <= b[i].end - 1 < a[i].end); assert(false); } }
    if i == b.len() - 1 { assert(b.last() == b[i]); if i < a.len() - 1 { assert(a[i].end == bytes.len()); assert(bytes[a[i].end - 1] == NL()); assert(b[i].start <= a[i].end - 1 < b[i].end); assert(false); } }
}
proof fn lemma_lines_unique(a: Seq<SourceLine>, b: Seq<SourceLine>, bytes: Seq<u8>)
    requires lines_ok(a, bytes), lines_ok(b, bytes),
    ensures a == b,
{
    lemma_lines_unique_upto(a, b, bytes, a.len() - 1);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { lemma_lines_unique_upto(a, b, bytes, i); }
    assert(a =~= b);
}
proof fn lemma_lines_count(a: Seq<SourceLine>, bytes: Seq<u8>, i: int)
    requires lines_ok(a, bytes), 0 <= i < a.len(),
    ensures i <= a[i].start <= bytes.len(),
    decreases i
{ if i > 0 { lemma_lines_count(a, bytes, i - 1); assert(a[i].start == a[i - 1].end); assert(a[i - 1].start < a[i - 1].end); } assert(a[i].start <= a[i].end); }
impl Buffer {
    pub open spec fn b(&self) -> Seq<u8> { self.input.decoded.bytes@ }
    pub open spec fn ls(&self) -> Seq<SourceLine> { self.input.decoded.lines@ }
    pub open spec fn len(&self) -> int { self.input.decoded.bytes@.len() as int }
    pub open spec fn input_ok(&self) -> bool { self.input.decoded.wf() && self.input.decoder is None && self.b().len() < 0x7fff_ff00 && self.ls().len() <= self.b().len() + 1 }
    pub open spec fn line_ok(&self) -> bool {
        &&& self.lastline < self.ls().len()
        &&& self.ls()[self.lastline as int].start <= self.pbeg && self.pbeg <= self.pcur && self.pcur <= self.pend
        &&& self.pend == self.ls()[self.lastline as int].end
        &&& self.pbeg == self.ls()[self.lastline as int].start || (self.lastline == 0 && self.pbeg == 3 && bom(self.b()))
        &&& self.pend <= self.b().len()
    }
    pub open spec fn counts_ok(&self) -> bool {
        &&& 1 <= self.line_count <= self.ls().len()
        &&& self.lastline < self.line_count
        &&& self.nextline < self.line_count
        &&& self.nextline != 0 ==> self.ls()[self.nextline as int].start < self.ls()[self.nextline as int].end && self.heredoc_end == 0 && self.ruby_sourceline + 1 <= self.line_count && !self.eofp
        &&& self.ruby_sourceline <= self.line_count
        &&& self.heredoc_end <= self.line_count
    }
    /// a line to be read again lies ahead
    pub open spec fn wf(&self) -> bool { self.core() && (self.nextline != 0 ==> self.lastline < self.nextline) }
    pub open spec fn core(&self) -> bool {
        &&& self.input_ok()
        &&& self.line_ok()
        &&& self.counts_ok()
        &&& self.ls()[self.lastline as int].start <= self.ptok <= self.pcur
        &&& at_char(self.b(), self.pcur as int, self.pbeg as int, self.pend as int)
    }
    /// before the first line is read
    pub open spec fn fresh(&self) -> bool {
        &&& self.input_ok() && self.line_count == 0 && self.lastline == 0 && self.nextline == 0 && self.pbeg == 0 && self.pcur == 0 && self.pend == 0 && self.ptok == 0 && !self.eofp && self.heredoc_end == 0 && self.ruby_sourceline == 0
    }
    pub open spec fn same_line(&self, o: Buffer) -> bool {
        &&& self.lastline == o.lastline && self.pbeg == o.pbeg && self.pend == o.pend && self.prevline == o.prevline && self.line_count == o.line_count && self.ruby_sourceline == o.ruby_sourceline && self.heredoc_end == o.heredoc_end
    }
    /// everything that reading never touches
    pub open spec fn frame(&self, o: Buffer) -> bool {
        &&& self.input == o.input && self.has_shebang == o.has_shebang && self.heredoc_indent == o.heredoc_indent && self.heredoc_line_indent == o.heredoc_line_indent && self.tokidx == o.tokidx && self.tokline == o.tokline
    }
    /// everything but pcur
    pub open spec fn frame_pcur(&self, o: Buffer) -> bool {
        self.frame(o) && self.same_line(o) && self.ptok == o.ptok && self.nextline == o.nextline && self.eofp == o.eofp && self.cr_seen == o.cr_seen
    }
    /// a character can be pushed back: there is one on this line, after the start of the token
    pub open spec fn pb_ok(&self, some: bool) -> bool {
        some ==> self.input_ok() && self.line_ok() && self.pbeg < self.pcur
    }
    pub open spec fn pb_done(&self, n: Buffer, some: bool) -> bool {
        &&& n == (if some { Buffer { pcur: back(self.b(), self.pcur as int, self.pbeg as int) as usize, ..*self } } else { *self })
        &&& some && self.wf() && self.ptok <= back(self.b(), self.pcur as int, self.pbeg as int) ==> n.wf() && n.pcur < n.pend
    }
    /// the next read stays on the current line
    pub open spec fn in_line(&self) -> bool { self.pcur < self.pend && !self.eofp && self.nextline == 0 }
    /// went to the line that follows in reading order
    pub open spec fn crossed(&self, o: Buffer) -> bool {
        &&& self.prevline == Some(o.lastline)
        &&& self.lastline == (if o.nextline != 0 { o.nextline } else { o.line_count })
        &&& self.line_count == (if o.nextline != 0 { o.line_count as int } else { o.line_count + 1 })
        &&& self.heredoc_end == 0
        &&& self.ruby_sourceline >= 1
        &&& self.ptok == self.pbeg
        &&& self.pbeg == self.ls()[self.lastline as int].start
        &&& !self.eofp
        &&& o.nextline == 0 ==> (o.pcur == o.pend && !o.eofp && (o.pbeg == o.pend || o.b()[o.pend - 1] == 10))
        &&& o.pend <= self.pbeg
        &&& o.line_count > 0 ==> o.lastline < self.lastline
    }
    /// the last character read was c
    pub open spec fn after(&self, c: u8) -> bool { self.nextline == 0 && !self.eofp && self.pbeg < self.pcur && self.b()[self.pcur - 1] == c }
    /// a read cannot leave the current line
    pub open spec fn stays(&self) -> bool { self.nextline == 0 && (self.eofp || self.pcur < self.pend || (self.pbeg < self.pend && self.b()[self.pend - 1] != 10)) }
    pub open spec fn next_from(&self, o: Buffer) -> int { if o.in_line() { o.pcur as int } else { self.pbeg as int } }
    /// lines are read in the order they are written
    pub open spec fn in_order(&self) -> bool { self.nextline == 0 && self.lastline + 1 == self.line_count && !self.eofp }
    /// reading one character
    pub open spec fn read_one(&self, o: Buffer, r: MaybeByte) -> bool {
        &&& self.nextline == 0
        &&& o.in_line() ==> r is Some && self.same_line(o) && self.ptok == o.ptok && self.eofp == o.eofp && self.cr_seen == o.cr_seen
        &&& r is Some && !o.in_line() ==> self.crossed(o)
        &&& r is Some ==> ({
            let q = self.next_from(o);
            &&& self.pbeg <= q < self.pend
            &&& r == MaybeByte::Some(chr(self.b(), q, self.pend as int))
            &&& self.pcur == adv(self.b(), q, self.pend as int)
            &&& back(self.b(), self.pcur as int, self.pbeg as int) == q
            &&& self.ptok <= q
            &&& self.after(r->Some_0)
        })
        &&& r is EndOfInput ==> (self.eofp && self.same_line(o) && self.ptok == o.ptok && self.pcur == (if o.eofp { o.pcur } else { self.pend }))
            || (!self.eofp && self.crossed(o) && self.pbeg == self.pend && self.pend == self.b().len())
        &&& r is EndOfInput && o.in_order() ==> self.pcur == self.b().len()
    }
}
@end
@file src/source/buffer.rs all
@skip Buffer::new
@implextra trait Pushback
  spec fn pb_some(c: T) -> bool;
  spec fn pb_pre(&self, some: bool) -> bool;
  spec fn pb_post(&self, n: &Self, some: bool) -> bool;
@fn Buffer::prepare props=C05,C06
@requires
  old(self).fresh(),
@ensures
  final(self).wf(),
  final(self).input == old(self).input,
@fn Buffer::nextc props=C05,C06
@requires
  old(self).wf() || old(self).fresh(),
@ensures
  final(self).wf(),
  final(self).frame(*old(self)),
  final(self).read_one(*old(self), r),
@fn Buffer::goto_eol props=C05,C06
@requires
  old(self).wf() || old(self).fresh(),
@ensures
  old(self).wf() ==> final(self).wf(),
  old(self).fresh() ==> final(self).fresh(),
  final(self).frame_pcur(*old(self)),
  final(self).pcur == old(self).pend,
@fn Buffer::is_eol props=C05
@ensures
  r == (self.pcur >= self.pend),
@fn Buffer::is_eol_n props=C05
@requires
  self.input_ok(), self.line_ok(),
  n <= 8,
@ensures
  r == (self.pcur + n >= self.pend),
@fn Buffer::peek props=C05,C06
@requires
  self.input_ok(), self.line_ok(),
@ensures
  r == (self.pcur < self.pend && self.b()[self.pcur as int] == c),
@fn Buffer::peek_n props=C05,C06
@requires
  self.input_ok(), self.line_ok(),
  n <= 8,
@ensures
  r == (self.pcur + n < self.pend && self.b()[self.pcur + n] == c),
@fn Buffer::peekc props=C05,C06
@requires
  self.input_ok(), self.line_ok(),
@ensures
  r == (if self.pcur < self.pend { MaybeByte::Some(self.b()[self.pcur as int]) } else { MaybeByte::EndOfInput }),
@fn Buffer::peekc_n props=C05,C06
@requires
  self.input_ok(), self.line_ok(),
  n <= 8,
@ensures
  r == (if self.pcur + n < self.pend { MaybeByte::Some(self.b()[self.pcur + n]) } else { MaybeByte::EndOfInput }),
@fn Buffer::nextline props=C05,C06
@requires
  old(self).wf() || old(self).fresh(),
  old(self).nextline != 0 || old(self).eofp || old(self).pcur == old(self).pend,
@ensures
  r is Ok ==> final(self).wf() && final(self).crossed(*old(self)) && final(self).pcur == final(self).pbeg && (old(self).nextline != 0 ==> final(self).pcur < final(self).pend),
  r is Err ==> final(self).wf() && final(self).same_line(*old(self)) && final(self).ptok == old(self).ptok && final(self).eofp && final(self).pcur == (if old(self).eofp { old(self).pcur } else { final(self).pend }),
  final(self).frame(*old(self)),
  final(self).nextline == 0,
  r is Err && old(self).in_order() ==> final(self).pend == final(self).b().len(),
@fnstart
  proof {
    if self.in_order() { assert(self.pend == self.b().len() || (self.pend > 0 && self.b()[self.pend - 1] == 10 && self.line_count < self.ls().len())) by { reveal(lines_ok); let l = self.lastline as int; if l == self.ls().len() - 1 { assert(self.ls().last() == self.ls()[l]); } else { assert(self.b()[self.ls()[l].end - 1] == 10); } } }
    if self.nextline != 0 { lemma_lines_monotone(self.ls(), self.b(), self.lastline as int, self.nextline as int); }
    else if self.lastline < self.line_count && self.line_count < self.ls().len() { lemma_lines_monotone(self.ls(), self.b(), self.lastline as int, self.line_count as int); }
  }
@fn Buffer::getline props=C05
@requires
  old(self).input_ok(),
@ensures
  r is Ok ==> old(self).line_count < old(self).ls().len() && r->Ok_0 == old(self).line_count && *final(self) == (Buffer { line_count: (old(self).line_count + 1) as usize, ..*old(self) }),
  r is Err ==> old(self).line_count >= old(self).ls().len() && *final(self) == *old(self),
@fn Buffer::token_flush props=C05,C06
@ensures
  *final(self) == (Buffer { ptok: old(self).pcur, ..*old(self) }),
@fn Buffer::set_ptok props=C05,C06
@ensures
  *final(self) == (Buffer { ptok: ptok, ..*old(self) }),
@fn Buffer::parser_cr props=C05
@requires
  old(self).line_ok(), old(self).input_ok(),
@ensures
  ({ let nl = old(self).pcur < old(self).pend && old(self).b()[old(self).pcur as int] == 10;
     &&& *final(self) == (Buffer { pcur: (if nl { (old(self).pcur + 1) as usize } else { old(self).pcur }), ..*old(self) })
     &&& r == (if nl { 10u8 } else { c }) }),
@fn Buffer::byte_at props=C05
@ensures
  idx < self.b().len() ==> r == MaybeByte::Some(self.b()[idx as int]),
  idx >= self.b().len() ==> r is EndOfInput,
@fn Buffer::substr_at props=C05
@ensures
  (start <= end && end <= self.b().len()) ==> r is Some && r->Some_0@ == self.b().subrange(start as int, end as int),
  !(start <= end && end <= self.b().len()) ==> r is None,
@fn Buffer::was_bol props=C05,C15
@requires
  self.wf(),
@ensures
  r == (self.pcur == self.pbeg + 1),
@fn Buffer::is_word_match props=C05,C15
@requires
  self.wf(), utf8(word@).len() <= 64, word.is_ascii(),
@ensures
  r == word_at(self.b(), self.pcur as int, utf8(word@), self.pend as int), // @C15
@fn Buffer::is_looking_at_eol props=C05 terminates
@locals ptr c c eol
@requires
  self.wf(),
@loop 0
  invariant self.wf(), $ptr <= self.pend,
  decreases self.pend - $ptr
@fn Buffer::is_whole_match props=C05,C14 terminates
@locals eos indent ptr len c n last_char char_after_last_char next_len_chars
@requires
  self.wf(), eos@.len() <= 0x7fff_ffff,
@ensures
  r == is_terminator_line(self.b(), self.pbeg as int, self.pend as int, eos@, indent > 0),
@loop 0
  invariant self.wf(), self.pbeg <= $ptr <= self.pend, skip_ws(self.b(), self.pbeg as int, self.pend as int) == skip_ws(self.b(), $ptr as int, self.pend as int),
  decreases self.pend - $ptr
@fn Buffer::eof_no_decrement props=C05,C06
@requires
  old(self).core(),
  old(self).eofp ==> old(self).nextline == 0,
  ({ let l = if old(self).eofp || old(self).prevline is None { old(self).lastline } else { old(self).prevline->Some_0 };
     l < old(self).line_count && old(self).ls()[l as int].start < old(self).ls()[l as int].end && (old(self).nextline != 0 ==> l < old(self).nextline) }),
@ensures
  final(self).wf(),
  final(self).nextline == old(self).nextline, final(self).line_count == old(self).line_count, final(self).eofp == old(self).eofp,
  final(self).frame(*old(self)),
  final(self).ptok == final(self).pcur, final(self).pcur < final(self).pend,
@fn Buffer::is_identchar props=C05,C09
@ensures
  r == (begin < self.b().len() && is_identch(self.b()[begin as int])),
@fn Buffer::set_encoding props=C05,C04
@rewrite |pos: usize| vp_min(pos - old_start + line.start, line.end) ==> |pos: usize| -> (o: usize) requires old_start <= pos && pos - old_start + line.start <= usize::MAX ensures o == (if pos - old_start + line.start <= line.end { (pos - old_start + line.start) as usize } else { line.end }) { vp_min(pos - old_start + line.start, line.end) }
@requires
  old(self).wf(), old(self).input.decoded.wf(),
@ensures
  final(self).wf(),
  final(self).input.decoded.bytes@ == old(self).input.decoded.bytes@,
  final(self).ls() == old(self).ls(),
  *final(self) == (Buffer { input: final(self).input, ..*old(self) }),
@hint after self.input.set_encoding(encoding)?;
  proof { lemma_lines_unique(old(self).ls(), self.ls(), self.b()); }
@fn <Pushback<u8>_for_Buffer>::pushback props=C05,C06
@fn <Pushback<Option<u8>>_for_Buffer>::pushback props=C05,C06
@fn <Pushback<MaybeByte>_for_Buffer>::pushback props=C05,C06
@fn <Pushback<&mut_MaybeByte>_for_Buffer>::pushback props=C05,C06
@fn Pushback::pushback
@requires
  old(self).pb_pre(Self::pb_some(c)),
@ensures
  old(self).pb_post(&*final(self), Self::pb_some(c)),
@implextra Pushback<u8> for Buffer
  open spec fn pb_some(c: u8) -> bool { true }
  open spec fn pb_pre(&self, some: bool) -> bool { self.pb_ok(some) }
  open spec fn pb_post(&self, n: &Self, some: bool) -> bool { self.pb_done(*n, some) }
@implextra Pushback<Option<u8>> for Buffer
  open spec fn pb_some(c: Option<u8>) -> bool { c is Some }
  open spec fn pb_pre(&self, some: bool) -> bool { self.pb_ok(some) }
  open spec fn pb_post(&self, n: &Self, some: bool) -> bool { self.pb_done(*n, some) }
@implextra Pushback<MaybeByte> for Buffer
  open spec fn pb_some(c: MaybeByte) -> bool { c is Some }
  open spec fn pb_pre(&self, some: bool) -> bool { self.pb_ok(some) }
  open spec fn pb_post(&self, n: &Self, some: bool) -> bool { self.pb_done(*n, some) }
@implextra Pushback<&mut MaybeByte> for Buffer
  open spec fn pb_some(c: &mut MaybeByte) -> bool { *c is Some }
  open spec fn pb_pre(&self, some: bool) -> bool { self.pb_ok(some) }
  open spec fn pb_post(&self, n: &Self, some: bool) -> bool { self.pb_done(*n, some) }
