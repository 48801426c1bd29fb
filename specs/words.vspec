@props C10
@include common.inc
@prelude
use std::cmp::Ordering;
use vstd::std_specs::cmp::OrdSpec;
pub mod vplex { use super::*;
/// lexicographic order of byte strings
pub open spec fn lexc(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len()
{ if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } } else if b.len() == 0 { Ordering::Greater }
  else if a[0] < b[0] { Ordering::Less } else if a[0] > b[0] { Ordering::Greater } else { lexc(a.drop_first(), b.drop_first()) } }
/// trusted: Ord of byte slices is lexicographic
pub broadcast axiom fn ax_slice_cmp(a: &[u8], b: &[u8]) ensures #[trigger] <[u8] as OrdSpec>::cmp_spec(a, b) == lexc(a@, b@);
pub broadcast axiom fn ax_slice_obeys_cmp() ensures #[trigger] <[u8] as OrdSpec>::obeys_cmp_spec();
}
use vplex::lexc;
pub open spec fn ole(a: Ordering, b: Ordering) -> bool { a == b || a is Less || b is Greater }
/// trusted: documented behaviour of binary_search_by (Err means absent only when the slice is ordered)
pub assume_specification<'a, T, F: FnMut(&'a T) -> Ordering> [<[T]>::binary_search_by] (s: &'a [T], f: F) -> (r: Result<usize, usize>)
  requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)),
  ensures r is Ok ==> r->Ok_0 < s@.len() && f.ensures((&s@[r->Ok_0 as int],), Ordering::Equal),
    r is Err ==> (forall|i: int, j: int, x: Ordering, y: Ordering| #![trigger f.ensures((&s@[i],), x), f.ensures((&s@[j],), y)] 0 <= i < j < s@.len() && f.ensures((&s@[i],), x) && f.ensures((&s@[j],), y) ==> ole(x, y))
       ==> forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==> exists|o: Ordering| f.ensures((&s@[i],), o) && !(o is Equal);
pub struct Lexer {}
/// as in lexer.inc: neither a newline nor a number nor a name
pub open spec fn plain(r: i32) -> bool {
    r != Lexer::tNL && !(r == Lexer::tINTEGER || r == Lexer::tFLOAT || r == Lexer::tRATIONAL || r == Lexer::tIMAGINARY)
    && !(r == Lexer::tIDENTIFIER || r == Lexer::tCONSTANT || r == Lexer::tFID || r == Lexer::tIVAR || r == Lexer::tCVAR || r == Lexer::tGVAR || r == Lexer::tNTH_REF || r == Lexer::tBACK_REF || r == Lexer::tLABEL)
}
pub proof fn lemma_tab_plain(n: int, k: int) requires 0 <= k < kw_tab(n).len() ensures plain(kw_tab(n)[k].id), plain(kw_tab(n)[k].modifier_id) { reveal(kw_tab); }
pub struct Kw { pub name: Seq<u8>, pub id: i32, pub modifier_id: i32, pub state: i32 }
/// Ruby's 41 keywords by length
#[verifier::opaque]
pub open spec fn kw_tab(n: int) -> Seq<Kw> {
    if n == 2 { seq![
        Kw { name: seq![100u8, 111u8], id: Lexer::kDO, modifier_id: Lexer::kDO, state: EXPR_BEG }, // do
        Kw { name: seq![105u8, 102u8], id: Lexer::kIF, modifier_id: Lexer::kIF_MOD, state: EXPR_VALUE }, // if
        Kw { name: seq![105u8, 110u8], id: Lexer::kIN, modifier_id: Lexer::kIN, state: EXPR_VALUE }, // in
        Kw { name: seq![111u8, 114u8], id: Lexer::kOR, modifier_id: Lexer::kOR, state: EXPR_VALUE }, // or
    ] }
    else if n == 3 { seq![
        Kw { name: seq![69u8, 78u8, 68u8], id: Lexer::klEND, modifier_id: Lexer::klEND, state: EXPR_END }, // END
        Kw { name: seq![97u8, 110u8, 100u8], id: Lexer::kAND, modifier_id: Lexer::kAND, state: EXPR_VALUE }, // and
        Kw { name: seq![100u8, 101u8, 102u8], id: Lexer::kDEF, modifier_id: Lexer::kDEF, state: EXPR_FNAME }, // def
        Kw { name: seq![101u8, 110u8, 100u8], id: Lexer::kEND, modifier_id: Lexer::kEND, state: EXPR_END }, // end
        Kw { name: seq![102u8, 111u8, 114u8], id: Lexer::kFOR, modifier_id: Lexer::kFOR, state: EXPR_VALUE }, // for
        Kw { name: seq![110u8, 105u8, 108u8], id: Lexer::kNIL, modifier_id: Lexer::kNIL, state: EXPR_END }, // nil
        Kw { name: seq![110u8, 111u8, 116u8], id: Lexer::kNOT, modifier_id: Lexer::kNOT, state: EXPR_ARG }, // not
    ] }
    else if n == 4 { seq![
        Kw { name: seq![99u8, 97u8, 115u8, 101u8], id: Lexer::kCASE, modifier_id: Lexer::kCASE, state: EXPR_VALUE }, // case
        Kw { name: seq![101u8, 108u8, 115u8, 101u8], id: Lexer::kELSE, modifier_id: Lexer::kELSE, state: EXPR_BEG }, // else
        Kw { name: seq![110u8, 101u8, 120u8, 116u8], id: Lexer::kNEXT, modifier_id: Lexer::kNEXT, state: EXPR_MID }, // next
        Kw { name: seq![114u8, 101u8, 100u8, 111u8], id: Lexer::kREDO, modifier_id: Lexer::kREDO, state: EXPR_END }, // redo
        Kw { name: seq![115u8, 101u8, 108u8, 102u8], id: Lexer::kSELF, modifier_id: Lexer::kSELF, state: EXPR_END }, // self
        Kw { name: seq![116u8, 104u8, 101u8, 110u8], id: Lexer::kTHEN, modifier_id: Lexer::kTHEN, state: EXPR_BEG }, // then
        Kw { name: seq![116u8, 114u8, 117u8, 101u8], id: Lexer::kTRUE, modifier_id: Lexer::kTRUE, state: EXPR_END }, // true
        Kw { name: seq![119u8, 104u8, 101u8, 110u8], id: Lexer::kWHEN, modifier_id: Lexer::kWHEN, state: EXPR_VALUE }, // when
    ] }
    else if n == 5 { seq![
        Kw { name: seq![66u8, 69u8, 71u8, 73u8, 78u8], id: Lexer::klBEGIN, modifier_id: Lexer::klBEGIN, state: EXPR_END }, // BEGIN
        Kw { name: seq![97u8, 108u8, 105u8, 97u8, 115u8], id: Lexer::kALIAS, modifier_id: Lexer::kALIAS, state: EXPR_FNAME | EXPR_FITEM }, // alias
        Kw { name: seq![98u8, 101u8, 103u8, 105u8, 110u8], id: Lexer::kBEGIN, modifier_id: Lexer::kBEGIN, state: EXPR_BEG }, // begin
        Kw { name: seq![98u8, 114u8, 101u8, 97u8, 107u8], id: Lexer::kBREAK, modifier_id: Lexer::kBREAK, state: EXPR_MID }, // break
        Kw { name: seq![99u8, 108u8, 97u8, 115u8, 115u8], id: Lexer::kCLASS, modifier_id: Lexer::kCLASS, state: EXPR_CLASS }, // class
        Kw { name: seq![101u8, 108u8, 115u8, 105u8, 102u8], id: Lexer::kELSIF, modifier_id: Lexer::kELSIF, state: EXPR_VALUE }, // elsif
        Kw { name: seq![102u8, 97u8, 108u8, 115u8, 101u8], id: Lexer::kFALSE, modifier_id: Lexer::kFALSE, state: EXPR_END }, // false
        Kw { name: seq![114u8, 101u8, 116u8, 114u8, 121u8], id: Lexer::kRETRY, modifier_id: Lexer::kRETRY, state: EXPR_END }, // retry
        Kw { name: seq![115u8, 117u8, 112u8, 101u8, 114u8], id: Lexer::kSUPER, modifier_id: Lexer::kSUPER, state: EXPR_ARG }, // super
        Kw { name: seq![117u8, 110u8, 100u8, 101u8, 102u8], id: Lexer::kUNDEF, modifier_id: Lexer::kUNDEF, state: EXPR_FNAME | EXPR_FITEM }, // undef
        Kw { name: seq![117u8, 110u8, 116u8, 105u8, 108u8], id: Lexer::kUNTIL, modifier_id: Lexer::kUNTIL_MOD, state: EXPR_VALUE }, // until
        Kw { name: seq![119u8, 104u8, 105u8, 108u8, 101u8], id: Lexer::kWHILE, modifier_id: Lexer::kWHILE_MOD, state: EXPR_VALUE }, // while
        Kw { name: seq![121u8, 105u8, 101u8, 108u8, 100u8], id: Lexer::kYIELD, modifier_id: Lexer::kYIELD, state: EXPR_ARG }, // yield
    ] }
    else if n == 6 { seq![
        Kw { name: seq![101u8, 110u8, 115u8, 117u8, 114u8, 101u8], id: Lexer::kENSURE, modifier_id: Lexer::kENSURE, state: EXPR_BEG }, // ensure
        Kw { name: seq![109u8, 111u8, 100u8, 117u8, 108u8, 101u8], id: Lexer::kMODULE, modifier_id: Lexer::kMODULE, state: EXPR_VALUE }, // module
        Kw { name: seq![114u8, 101u8, 115u8, 99u8, 117u8, 101u8], id: Lexer::kRESCUE, modifier_id: Lexer::kRESCUE_MOD, state: EXPR_MID }, // rescue
        Kw { name: seq![114u8, 101u8, 116u8, 117u8, 114u8, 110u8], id: Lexer::kRETURN, modifier_id: Lexer::kRETURN, state: EXPR_MID }, // return
        Kw { name: seq![117u8, 110u8, 108u8, 101u8, 115u8, 115u8], id: Lexer::kUNLESS, modifier_id: Lexer::kUNLESS_MOD, state: EXPR_VALUE }, // unless
    ] }
    else if n == 8 { seq![
        Kw { name: seq![95u8, 95u8, 70u8, 73u8, 76u8, 69u8, 95u8, 95u8], id: Lexer::k__FILE__, modifier_id: Lexer::k__FILE__, state: EXPR_END }, // __FILE__
        Kw { name: seq![95u8, 95u8, 76u8, 73u8, 78u8, 69u8, 95u8, 95u8], id: Lexer::k__LINE__, modifier_id: Lexer::k__LINE__, state: EXPR_END }, // __LINE__
        Kw { name: seq![100u8, 101u8, 102u8, 105u8, 110u8, 101u8, 100u8, 63u8], id: Lexer::kDEFINED, modifier_id: Lexer::kDEFINED, state: EXPR_ARG }, // defined?
    ] }
    else if n == 12 { seq![
        Kw { name: seq![95u8, 95u8, 69u8, 78u8, 67u8, 79u8, 68u8, 73u8, 78u8, 71u8, 95u8, 95u8], id: Lexer::k__ENCODING__, modifier_id: Lexer::k__ENCODING__, state: EXPR_END }, // __ENCODING__
    ] }
    else { seq![] }
}

proof fn lemma_lexc_eq(a: Seq<u8>, b: Seq<u8>) ensures lexc(a, b) is Equal <==> a == b decreases a.len()
{ if a.len() > 0 && b.len() > 0 { lemma_lexc_eq(a.drop_first(), b.drop_first()); if a[0] == b[0] && lexc(a, b) is Equal { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); } } else if lexc(a, b) is Equal { assert(a =~= b); } }
proof fn lemma_lexc_mono(a: Seq<u8>, b: Seq<u8>, t: Seq<u8>) requires lexc(a, b) is Less ensures ole(lexc(a, t), lexc(b, t)), !(lexc(a, t) is Equal && lexc(b, t) is Equal) decreases a.len()
{ if a.len() > 0 && b.len() > 0 && t.len() > 0 && a[0] == b[0] { lemma_lexc_mono(a.drop_first(), b.drop_first(), t.drop_first()); } else if t.len() == 0 && a.len() > 0 && b.len() > 0 { } }
proof fn lemma_lexc_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires lexc(a, b) is Less, lexc(b, c) is Less ensures lexc(a, c) is Less decreases a.len()
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_lexc_trans(a.drop_first(), b.drop_first(), c.drop_first()); } }
proof fn lemma_tab_adjacent(n: int, i: int) requires 0 <= i, i + 1 < kw_tab(n).len() ensures lexc(kw_tab(n)[i].name, kw_tab(n)[i + 1].name) is Less
{
    reveal(kw_tab);
    if n == 2 {
        assert(lexc(seq![100u8, 111u8], seq![105u8, 102u8]) is Less) by(compute);
        assert(lexc(seq![105u8, 102u8], seq![105u8, 110u8]) is Less) by(compute);
        assert(lexc(seq![105u8, 110u8], seq![111u8, 114u8]) is Less) by(compute);
    }
    if n == 3 {
        assert(lexc(seq![69u8, 78u8, 68u8], seq![97u8, 110u8, 100u8]) is Less) by(compute);
        assert(lexc(seq![97u8, 110u8, 100u8], seq![100u8, 101u8, 102u8]) is Less) by(compute);
        assert(lexc(seq![100u8, 101u8, 102u8], seq![101u8, 110u8, 100u8]) is Less) by(compute);
        assert(lexc(seq![101u8, 110u8, 100u8], seq![102u8, 111u8, 114u8]) is Less) by(compute);
        assert(lexc(seq![102u8, 111u8, 114u8], seq![110u8, 105u8, 108u8]) is Less) by(compute);
        assert(lexc(seq![110u8, 105u8, 108u8], seq![110u8, 111u8, 116u8]) is Less) by(compute);
    }
    if n == 4 {
        assert(lexc(seq![99u8, 97u8, 115u8, 101u8], seq![101u8, 108u8, 115u8, 101u8]) is Less) by(compute);
        assert(lexc(seq![101u8, 108u8, 115u8, 101u8], seq![110u8, 101u8, 120u8, 116u8]) is Less) by(compute);
        assert(lexc(seq![110u8, 101u8, 120u8, 116u8], seq![114u8, 101u8, 100u8, 111u8]) is Less) by(compute);
        assert(lexc(seq![114u8, 101u8, 100u8, 111u8], seq![115u8, 101u8, 108u8, 102u8]) is Less) by(compute);
        assert(lexc(seq![115u8, 101u8, 108u8, 102u8], seq![116u8, 104u8, 101u8, 110u8]) is Less) by(compute);
        assert(lexc(seq![116u8, 104u8, 101u8, 110u8], seq![116u8, 114u8, 117u8, 101u8]) is Less) by(compute);
        assert(lexc(seq![116u8, 114u8, 117u8, 101u8], seq![119u8, 104u8, 101u8, 110u8]) is Less) by(compute);
    }
    if n == 5 {
        assert(lexc(seq![66u8, 69u8, 71u8, 73u8, 78u8], seq![97u8, 108u8, 105u8, 97u8, 115u8]) is Less) by(compute);
        assert(lexc(seq![97u8, 108u8, 105u8, 97u8, 115u8], seq![98u8, 101u8, 103u8, 105u8, 110u8]) is Less) by(compute);
        assert(lexc(seq![98u8, 101u8, 103u8, 105u8, 110u8], seq![98u8, 114u8, 101u8, 97u8, 107u8]) is Less) by(compute);
        assert(lexc(seq![98u8, 114u8, 101u8, 97u8, 107u8], seq![99u8, 108u8, 97u8, 115u8, 115u8]) is Less) by(compute);
        assert(lexc(seq![99u8, 108u8, 97u8, 115u8, 115u8], seq![101u8, 108u8, 115u8, 105u8, 102u8]) is Less) by(compute);
        assert(lexc(seq![101u8, 108u8, 115u8, 105u8, 102u8], seq![102u8, 97u8, 108u8, 115u8, 101u8]) is Less) by(compute);
        assert(lexc(seq![102u8, 97u8, 108u8, 115u8, 101u8], seq![114u8, 101u8, 116u8, 114u8, 121u8]) is Less) by(compute);
        assert(lexc(seq![114u8, 101u8, 116u8, 114u8, 121u8], seq![115u8, 117u8, 112u8, 101u8, 114u8]) is Less) by(compute);
        assert(lexc(seq![115u8, 117u8, 112u8, 101u8, 114u8], seq![117u8, 110u8, 100u8, 101u8, 102u8]) is Less) by(compute);
        assert(lexc(seq![117u8, 110u8, 100u8, 101u8, 102u8], seq![117u8, 110u8, 116u8, 105u8, 108u8]) is Less) by(compute);
        assert(lexc(seq![117u8, 110u8, 116u8, 105u8, 108u8], seq![119u8, 104u8, 105u8, 108u8, 101u8]) is Less) by(compute);
        assert(lexc(seq![119u8, 104u8, 105u8, 108u8, 101u8], seq![121u8, 105u8, 101u8, 108u8, 100u8]) is Less) by(compute);
    }
    if n == 6 {
        assert(lexc(seq![101u8, 110u8, 115u8, 117u8, 114u8, 101u8], seq![109u8, 111u8, 100u8, 117u8, 108u8, 101u8]) is Less) by(compute);
        assert(lexc(seq![109u8, 111u8, 100u8, 117u8, 108u8, 101u8], seq![114u8, 101u8, 115u8, 99u8, 117u8, 101u8]) is Less) by(compute);
        assert(lexc(seq![114u8, 101u8, 115u8, 99u8, 117u8, 101u8], seq![114u8, 101u8, 116u8, 117u8, 114u8, 110u8]) is Less) by(compute);
        assert(lexc(seq![114u8, 101u8, 116u8, 117u8, 114u8, 110u8], seq![117u8, 110u8, 108u8, 101u8, 115u8, 115u8]) is Less) by(compute);
    }
    if n == 8 {
        assert(lexc(seq![95u8, 95u8, 70u8, 73u8, 76u8, 69u8, 95u8, 95u8], seq![95u8, 95u8, 76u8, 73u8, 78u8, 69u8, 95u8, 95u8]) is Less) by(compute);
        assert(lexc(seq![95u8, 95u8, 76u8, 73u8, 78u8, 69u8, 95u8, 95u8], seq![100u8, 101u8, 102u8, 105u8, 110u8, 101u8, 100u8, 63u8]) is Less) by(compute);
    }
    if n == 12 {
    }
}
proof fn lemma_tab_sorted(n: int, i: int, j: int) requires 0 <= i < j < kw_tab(n).len() ensures lexc(kw_tab(n)[i].name, kw_tab(n)[j].name) is Less decreases j - i
{ lemma_tab_adjacent(n, j - 1); if i + 1 < j { lemma_tab_sorted(n, i, j - 1); lemma_lexc_trans(kw_tab(n)[i].name, kw_tab(n)[j - 1].name, kw_tab(n)[j].name); } }
proof fn lemma_name_do() ensures encode_utf8("do"@) == seq![100u8, 111u8] { reveal_strlit("do"); vstd::utf8::is_ascii_chars_encode_utf8("do"@); assert("do"@.len() == 2 && "do"@[0] == 'd' && "do"@[1] == 'o'); assert(encode_utf8("do"@) =~= seq![100u8, 111u8]); }
proof fn lemma_name_if() ensures encode_utf8("if"@) == seq![105u8, 102u8] { reveal_strlit("if"); vstd::utf8::is_ascii_chars_encode_utf8("if"@); assert("if"@.len() == 2 && "if"@[0] == 'i' && "if"@[1] == 'f'); assert(encode_utf8("if"@) =~= seq![105u8, 102u8]); }
proof fn lemma_name_in() ensures encode_utf8("in"@) == seq![105u8, 110u8] { reveal_strlit("in"); vstd::utf8::is_ascii_chars_encode_utf8("in"@); assert("in"@.len() == 2 && "in"@[0] == 'i' && "in"@[1] == 'n'); assert(encode_utf8("in"@) =~= seq![105u8, 110u8]); }
proof fn lemma_name_or() ensures encode_utf8("or"@) == seq![111u8, 114u8] { reveal_strlit("or"); vstd::utf8::is_ascii_chars_encode_utf8("or"@); assert("or"@.len() == 2 && "or"@[0] == 'o' && "or"@[1] == 'r'); assert(encode_utf8("or"@) =~= seq![111u8, 114u8]); }
proof fn lemma_name_END() ensures encode_utf8("END"@) == seq![69u8, 78u8, 68u8] { reveal_strlit("END"); vstd::utf8::is_ascii_chars_encode_utf8("END"@); assert("END"@.len() == 3 && "END"@[0] == 'E' && "END"@[1] == 'N' && "END"@[2] == 'D'); assert(encode_utf8("END"@) =~= seq![69u8, 78u8, 68u8]); }
proof fn lemma_name_and() ensures encode_utf8("and"@) == seq![97u8, 110u8, 100u8] { reveal_strlit("and"); vstd::utf8::is_ascii_chars_encode_utf8("and"@); assert("and"@.len() == 3 && "and"@[0] == 'a' && "and"@[1] == 'n' && "and"@[2] == 'd'); assert(encode_utf8("and"@) =~= seq![97u8, 110u8, 100u8]); }
proof fn lemma_name_def() ensures encode_utf8("def"@) == seq![100u8, 101u8, 102u8] { reveal_strlit("def"); vstd::utf8::is_ascii_chars_encode_utf8("def"@); assert("def"@.len() == 3 && "def"@[0] == 'd' && "def"@[1] == 'e' && "def"@[2] == 'f'); assert(encode_utf8("def"@) =~= seq![100u8, 101u8, 102u8]); }
proof fn lemma_name_end() ensures encode_utf8("end"@) == seq![101u8, 110u8, 100u8] { reveal_strlit("end"); vstd::utf8::is_ascii_chars_encode_utf8("end"@); assert("end"@.len() == 3 && "end"@[0] == 'e' && "end"@[1] == 'n' && "end"@[2] == 'd'); assert(encode_utf8("end"@) =~= seq![101u8, 110u8, 100u8]); }
proof fn lemma_name_for() ensures encode_utf8("for"@) == seq![102u8, 111u8, 114u8] { reveal_strlit("for"); vstd::utf8::is_ascii_chars_encode_utf8("for"@); assert("for"@.len() == 3 && "for"@[0] == 'f' && "for"@[1] == 'o' && "for"@[2] == 'r'); assert(encode_utf8("for"@) =~= seq![102u8, 111u8, 114u8]); }
proof fn lemma_name_nil() ensures encode_utf8("nil"@) == seq![110u8, 105u8, 108u8] { reveal_strlit("nil"); vstd::utf8::is_ascii_chars_encode_utf8("nil"@); assert("nil"@.len() == 3 && "nil"@[0] == 'n' && "nil"@[1] == 'i' && "nil"@[2] == 'l'); assert(encode_utf8("nil"@) =~= seq![110u8, 105u8, 108u8]); }
proof fn lemma_name_not() ensures encode_utf8("not"@) == seq![110u8, 111u8, 116u8] { reveal_strlit("not"); vstd::utf8::is_ascii_chars_encode_utf8("not"@); assert("not"@.len() == 3 && "not"@[0] == 'n' && "not"@[1] == 'o' && "not"@[2] == 't'); assert(encode_utf8("not"@) =~= seq![110u8, 111u8, 116u8]); }
proof fn lemma_name_case() ensures encode_utf8("case"@) == seq![99u8, 97u8, 115u8, 101u8] { reveal_strlit("case"); vstd::utf8::is_ascii_chars_encode_utf8("case"@); assert("case"@.len() == 4 && "case"@[0] == 'c' && "case"@[1] == 'a' && "case"@[2] == 's' && "case"@[3] == 'e'); assert(encode_utf8("case"@) =~= seq![99u8, 97u8, 115u8, 101u8]); }
proof fn lemma_name_else() ensures encode_utf8("else"@) == seq![101u8, 108u8, 115u8, 101u8] { reveal_strlit("else"); vstd::utf8::is_ascii_chars_encode_utf8("else"@); assert("else"@.len() == 4 && "else"@[0] == 'e' && "else"@[1] == 'l' && "else"@[2] == 's' && "else"@[3] == 'e'); assert(encode_utf8("else"@) =~= seq![101u8, 108u8, 115u8, 101u8]); }
proof fn lemma_name_next() ensures encode_utf8("next"@) == seq![110u8, 101u8, 120u8, 116u8] { reveal_strlit("next"); vstd::utf8::is_ascii_chars_encode_utf8("next"@); assert("next"@.len() == 4 && "next"@[0] == 'n' && "next"@[1] == 'e' && "next"@[2] == 'x' && "next"@[3] == 't'); assert(encode_utf8("next"@) =~= seq![110u8, 101u8, 120u8, 116u8]); }
proof fn lemma_name_redo() ensures encode_utf8("redo"@) == seq![114u8, 101u8, 100u8, 111u8] { reveal_strlit("redo"); vstd::utf8::is_ascii_chars_encode_utf8("redo"@); assert("redo"@.len() == 4 && "redo"@[0] == 'r' && "redo"@[1] == 'e' && "redo"@[2] == 'd' && "redo"@[3] == 'o'); assert(encode_utf8("redo"@) =~= seq![114u8, 101u8, 100u8, 111u8]); }
proof fn lemma_name_self() ensures encode_utf8("self"@) == seq![115u8, 101u8, 108u8, 102u8] { reveal_strlit("self"); vstd::utf8::is_ascii_chars_encode_utf8("self"@); assert("self"@.len() == 4 && "self"@[0] == 's' && "self"@[1] == 'e' && "self"@[2] == 'l' && "self"@[3] == 'f'); assert(encode_utf8("self"@) =~= seq![115u8, 101u8, 108u8, 102u8]); }
proof fn lemma_name_then() ensures encode_utf8("then"@) == seq![116u8, 104u8, 101u8, 110u8] { reveal_strlit("then"); vstd::utf8::is_ascii_chars_encode_utf8("then"@); assert("then"@.len() == 4 && "then"@[0] == 't' && "then"@[1] == 'h' && "then"@[2] == 'e' && "then"@[3] == 'n'); assert(encode_utf8("then"@) =~= seq![116u8, 104u8, 101u8, 110u8]); }
proof fn lemma_name_true() ensures encode_utf8("true"@) == seq![116u8, 114u8, 117u8, 101u8] { reveal_strlit("true"); vstd::utf8::is_ascii_chars_encode_utf8("true"@); assert("true"@.len() == 4 && "true"@[0] == 't' && "true"@[1] == 'r' && "true"@[2] == 'u' && "true"@[3] == 'e'); assert(encode_utf8("true"@) =~= seq![116u8, 114u8, 117u8, 101u8]); }
proof fn lemma_name_when() ensures encode_utf8("when"@) == seq![119u8, 104u8, 101u8, 110u8] { reveal_strlit("when"); vstd::utf8::is_ascii_chars_encode_utf8("when"@); assert("when"@.len() == 4 && "when"@[0] == 'w' && "when"@[1] == 'h' && "when"@[2] == 'e' && "when"@[3] == 'n'); assert(encode_utf8("when"@) =~= seq![119u8, 104u8, 101u8, 110u8]); }
proof fn lemma_name_BEGIN() ensures encode_utf8("BEGIN"@) == seq![66u8, 69u8, 71u8, 73u8, 78u8] { reveal_strlit("BEGIN"); vstd::utf8::is_ascii_chars_encode_utf8("BEGIN"@); assert("BEGIN"@.len() == 5 && "BEGIN"@[0] == 'B' && "BEGIN"@[1] == 'E' && "BEGIN"@[2] == 'G' && "BEGIN"@[3] == 'I' && "BEGIN"@[4] == 'N'); assert(encode_utf8("BEGIN"@) =~= seq![66u8, 69u8, 71u8, 73u8, 78u8]); }
proof fn lemma_name_alias() ensures encode_utf8("alias"@) == seq![97u8, 108u8, 105u8, 97u8, 115u8] { reveal_strlit("alias"); vstd::utf8::is_ascii_chars_encode_utf8("alias"@); assert("alias"@.len() == 5 && "alias"@[0] == 'a' && "alias"@[1] == 'l' && "alias"@[2] == 'i' && "alias"@[3] == 'a' && "alias"@[4] == 's'); assert(encode_utf8("alias"@) =~= seq![97u8, 108u8, 105u8, 97u8, 115u8]); }
proof fn lemma_name_begin() ensures encode_utf8("begin"@) == seq![98u8, 101u8, 103u8, 105u8, 110u8] { reveal_strlit("begin"); vstd::utf8::is_ascii_chars_encode_utf8("begin"@); assert("begin"@.len() == 5 && "begin"@[0] == 'b' && "begin"@[1] == 'e' && "begin"@[2] == 'g' && "begin"@[3] == 'i' && "begin"@[4] == 'n'); assert(encode_utf8("begin"@) =~= seq![98u8, 101u8, 103u8, 105u8, 110u8]); }
proof fn lemma_name_break() ensures encode_utf8("break"@) == seq![98u8, 114u8, 101u8, 97u8, 107u8] { reveal_strlit("break"); vstd::utf8::is_ascii_chars_encode_utf8("break"@); assert("break"@.len() == 5 && "break"@[0] == 'b' && "break"@[1] == 'r' && "break"@[2] == 'e' && "break"@[3] == 'a' && "break"@[4] == 'k'); assert(encode_utf8("break"@) =~= seq![98u8, 114u8, 101u8, 97u8, 107u8]); }
proof fn lemma_name_class() ensures encode_utf8("class"@) == seq![99u8, 108u8, 97u8, 115u8, 115u8] { reveal_strlit("class"); vstd::utf8::is_ascii_chars_encode_utf8("class"@); assert("class"@.len() == 5 && "class"@[0] == 'c' && "class"@[1] == 'l' && "class"@[2] == 'a' && "class"@[3] == 's' && "class"@[4] == 's'); assert(encode_utf8("class"@) =~= seq![99u8, 108u8, 97u8, 115u8, 115u8]); }
proof fn lemma_name_elsif() ensures encode_utf8("elsif"@) == seq![101u8, 108u8, 115u8, 105u8, 102u8] { reveal_strlit("elsif"); vstd::utf8::is_ascii_chars_encode_utf8("elsif"@); assert("elsif"@.len() == 5 && "elsif"@[0] == 'e' && "elsif"@[1] == 'l' && "elsif"@[2] == 's' && "elsif"@[3] == 'i' && "elsif"@[4] == 'f'); assert(encode_utf8("elsif"@) =~= seq![101u8, 108u8, 115u8, 105u8, 102u8]); }
proof fn lemma_name_false() ensures encode_utf8("false"@) == seq![102u8, 97u8, 108u8, 115u8, 101u8] { reveal_strlit("false"); vstd::utf8::is_ascii_chars_encode_utf8("false"@); assert("false"@.len() == 5 && "false"@[0] == 'f' && "false"@[1] == 'a' && "false"@[2] == 'l' && "false"@[3] == 's' && "false"@[4] == 'e'); assert(encode_utf8("false"@) =~= seq![102u8, 97u8, 108u8, 115u8, 101u8]); }
proof fn lemma_name_retry() ensures encode_utf8("retry"@) == seq![114u8, 101u8, 116u8, 114u8, 121u8] { reveal_strlit("retry"); vstd::utf8::is_ascii_chars_encode_utf8("retry"@); assert("retry"@.len() == 5 && "retry"@[0] == 'r' && "retry"@[1] == 'e' && "retry"@[2] == 't' && "retry"@[3] == 'r' && "retry"@[4] == 'y'); assert(encode_utf8("retry"@) =~= seq![114u8, 101u8, 116u8, 114u8, 121u8]); }
proof fn lemma_name_super() ensures encode_utf8("super"@) == seq![115u8, 117u8, 112u8, 101u8, 114u8] { reveal_strlit("super"); vstd::utf8::is_ascii_chars_encode_utf8("super"@); assert("super"@.len() == 5 && "super"@[0] == 's' && "super"@[1] == 'u' && "super"@[2] == 'p' && "super"@[3] == 'e' && "super"@[4] == 'r'); assert(encode_utf8("super"@) =~= seq![115u8, 117u8, 112u8, 101u8, 114u8]); }
proof fn lemma_name_undef() ensures encode_utf8("undef"@) == seq![117u8, 110u8, 100u8, 101u8, 102u8] { reveal_strlit("undef"); vstd::utf8::is_ascii_chars_encode_utf8("undef"@); assert("undef"@.len() == 5 && "undef"@[0] == 'u' && "undef"@[1] == 'n' && "undef"@[2] == 'd' && "undef"@[3] == 'e' && "undef"@[4] == 'f'); assert(encode_utf8("undef"@) =~= seq![117u8, 110u8, 100u8, 101u8, 102u8]); }
proof fn lemma_name_until() ensures encode_utf8("until"@) == seq![117u8, 110u8, 116u8, 105u8, 108u8] { reveal_strlit("until"); vstd::utf8::is_ascii_chars_encode_utf8("until"@); assert("until"@.len() == 5 && "until"@[0] == 'u' && "until"@[1] == 'n' && "until"@[2] == 't' && "until"@[3] == 'i' && "until"@[4] == 'l'); assert(encode_utf8("until"@) =~= seq![117u8, 110u8, 116u8, 105u8, 108u8]); }
proof fn lemma_name_while() ensures encode_utf8("while"@) == seq![119u8, 104u8, 105u8, 108u8, 101u8] { reveal_strlit("while"); vstd::utf8::is_ascii_chars_encode_utf8("while"@); assert("while"@.len() == 5 && "while"@[0] == 'w' && "while"@[1] == 'h' && "while"@[2] == 'i' && "while"@[3] == 'l' && "while"@[4] == 'e'); assert(encode_utf8("while"@) =~= seq![119u8, 104u8, 105u8, 108u8, 101u8]); }
proof fn lemma_name_yield() ensures encode_utf8("yield"@) == seq![121u8, 105u8, 101u8, 108u8, 100u8] { reveal_strlit("yield"); vstd::utf8::is_ascii_chars_encode_utf8("yield"@); assert("yield"@.len() == 5 && "yield"@[0] == 'y' && "yield"@[1] == 'i' && "yield"@[2] == 'e' && "yield"@[3] == 'l' && "yield"@[4] == 'd'); assert(encode_utf8("yield"@) =~= seq![121u8, 105u8, 101u8, 108u8, 100u8]); }
proof fn lemma_name_ensure() ensures encode_utf8("ensure"@) == seq![101u8, 110u8, 115u8, 117u8, 114u8, 101u8] { reveal_strlit("ensure"); vstd::utf8::is_ascii_chars_encode_utf8("ensure"@); assert("ensure"@.len() == 6 && "ensure"@[0] == 'e' && "ensure"@[1] == 'n' && "ensure"@[2] == 's' && "ensure"@[3] == 'u' && "ensure"@[4] == 'r' && "ensure"@[5] == 'e'); assert(encode_utf8("ensure"@) =~= seq![101u8, 110u8, 115u8, 117u8, 114u8, 101u8]); }
proof fn lemma_name_module() ensures encode_utf8("module"@) == seq![109u8, 111u8, 100u8, 117u8, 108u8, 101u8] { reveal_strlit("module"); vstd::utf8::is_ascii_chars_encode_utf8("module"@); assert("module"@.len() == 6 && "module"@[0] == 'm' && "module"@[1] == 'o' && "module"@[2] == 'd' && "module"@[3] == 'u' && "module"@[4] == 'l' && "module"@[5] == 'e'); assert(encode_utf8("module"@) =~= seq![109u8, 111u8, 100u8, 117u8, 108u8, 101u8]); }
proof fn lemma_name_rescue() ensures encode_utf8("rescue"@) == seq![114u8, 101u8, 115u8, 99u8, 117u8, 101u8] { reveal_strlit("rescue"); vstd::utf8::is_ascii_chars_encode_utf8("rescue"@); assert("rescue"@.len() == 6 && "rescue"@[0] == 'r' && "rescue"@[1] == 'e' && "rescue"@[2] == 's' && "rescue"@[3] == 'c' && "rescue"@[4] == 'u' && "rescue"@[5] == 'e'); assert(encode_utf8("rescue"@) =~= seq![114u8, 101u8, 115u8, 99u8, 117u8, 101u8]); }
proof fn lemma_name_return() ensures encode_utf8("return"@) == seq![114u8, 101u8, 116u8, 117u8, 114u8, 110u8] { reveal_strlit("return"); vstd::utf8::is_ascii_chars_encode_utf8("return"@); assert("return"@.len() == 6 && "return"@[0] == 'r' && "return"@[1] == 'e' && "return"@[2] == 't' && "return"@[3] == 'u' && "return"@[4] == 'r' && "return"@[5] == 'n'); assert(encode_utf8("return"@) =~= seq![114u8, 101u8, 116u8, 117u8, 114u8, 110u8]); }
proof fn lemma_name_unless() ensures encode_utf8("unless"@) == seq![117u8, 110u8, 108u8, 101u8, 115u8, 115u8] { reveal_strlit("unless"); vstd::utf8::is_ascii_chars_encode_utf8("unless"@); assert("unless"@.len() == 6 && "unless"@[0] == 'u' && "unless"@[1] == 'n' && "unless"@[2] == 'l' && "unless"@[3] == 'e' && "unless"@[4] == 's' && "unless"@[5] == 's'); assert(encode_utf8("unless"@) =~= seq![117u8, 110u8, 108u8, 101u8, 115u8, 115u8]); }
proof fn lemma_name___FILE__() ensures encode_utf8("__FILE__"@) == seq![95u8, 95u8, 70u8, 73u8, 76u8, 69u8, 95u8, 95u8] { reveal_strlit("__FILE__"); vstd::utf8::is_ascii_chars_encode_utf8("__FILE__"@); assert("__FILE__"@.len() == 8 && "__FILE__"@[0] == '_' && "__FILE__"@[1] == '_' && "__FILE__"@[2] == 'F' && "__FILE__"@[3] == 'I' && "__FILE__"@[4] == 'L' && "__FILE__"@[5] == 'E' && "__FILE__"@[6] == '_' && "__FILE__"@[7] == '_'); assert(encode_utf8("__FILE__"@) =~= seq![95u8, 95u8, 70u8, 73u8, 76u8, 69u8, 95u8, 95u8]); }
proof fn lemma_name___LINE__() ensures encode_utf8("__LINE__"@) == seq![95u8, 95u8, 76u8, 73u8, 78u8, 69u8, 95u8, 95u8] { reveal_strlit("__LINE__"); vstd::utf8::is_ascii_chars_encode_utf8("__LINE__"@); assert("__LINE__"@.len() == 8 && "__LINE__"@[0] == '_' && "__LINE__"@[1] == '_' && "__LINE__"@[2] == 'L' && "__LINE__"@[3] == 'I' && "__LINE__"@[4] == 'N' && "__LINE__"@[5] == 'E' && "__LINE__"@[6] == '_' && "__LINE__"@[7] == '_'); assert(encode_utf8("__LINE__"@) =~= seq![95u8, 95u8, 76u8, 73u8, 78u8, 69u8, 95u8, 95u8]); }
proof fn lemma_name_defined_q() ensures encode_utf8("defined?"@) == seq![100u8, 101u8, 102u8, 105u8, 110u8, 101u8, 100u8, 63u8] { reveal_strlit("defined?"); vstd::utf8::is_ascii_chars_encode_utf8("defined?"@); assert("defined?"@.len() == 8 && "defined?"@[0] == 'd' && "defined?"@[1] == 'e' && "defined?"@[2] == 'f' && "defined?"@[3] == 'i' && "defined?"@[4] == 'n' && "defined?"@[5] == 'e' && "defined?"@[6] == 'd' && "defined?"@[7] == '?'); assert(encode_utf8("defined?"@) =~= seq![100u8, 101u8, 102u8, 105u8, 110u8, 101u8, 100u8, 63u8]); }
proof fn lemma_name___ENCODING__() ensures encode_utf8("__ENCODING__"@) == seq![95u8, 95u8, 69u8, 78u8, 67u8, 79u8, 68u8, 73u8, 78u8, 71u8, 95u8, 95u8] { reveal_strlit("__ENCODING__"); vstd::utf8::is_ascii_chars_encode_utf8("__ENCODING__"@); assert("__ENCODING__"@.len() == 12 && "__ENCODING__"@[0] == '_' && "__ENCODING__"@[1] == '_' && "__ENCODING__"@[2] == 'E' && "__ENCODING__"@[3] == 'N' && "__ENCODING__"@[4] == 'C' && "__ENCODING__"@[5] == 'O' && "__ENCODING__"@[6] == 'D' && "__ENCODING__"@[7] == 'I' && "__ENCODING__"@[8] == 'N' && "__ENCODING__"@[9] == 'G' && "__ENCODING__"@[10] == '_' && "__ENCODING__"@[11] == '_'); assert(encode_utf8("__ENCODING__"@) =~= seq![95u8, 95u8, 69u8, 78u8, 67u8, 79u8, 68u8, 73u8, 78u8, 71u8, 95u8, 95u8]); }
pub open spec fn same_kw(w: ReservedWord, k: Kw) -> bool { encode_utf8(w.name@) == k.name && w.id == k.id && w.modifier_id == k.modifier_id && w.state == k.state }
pub open spec fn raw_0(b: Seq<ReservedWord>) -> bool {
    &&& b.len() == 0
}
proof fn lemma_bucket_0(b: Seq<ReservedWord>) requires raw_0(b) ensures bucket_ok(b, 0) { reveal(kw_tab);  }
pub open spec fn raw_1(b: Seq<ReservedWord>) -> bool {
    &&& b.len() == 0
}
proof fn lemma_bucket_1(b: Seq<ReservedWord>) requires raw_1(b) ensures bucket_ok(b, 1) { reveal(kw_tab);  }
pub open spec fn raw_2(b: Seq<ReservedWord>) -> bool {
    &&& b.len() == 4
    &&& b[0].name@ == "do"@ && b[0].id == Lexer::kDO && b[0].modifier_id == Lexer::kDO && b[0].state == EXPR_BEG
    &&& b[1].name@ == "if"@ && b[1].id == Lexer::kIF && b[1].modifier_id == Lexer::kIF_MOD && b[1].state == EXPR_VALUE
    &&& b[2].name@ == "in"@ && b[2].id == Lexer::kIN && b[2].modifier_id == Lexer::kIN && b[2].state == EXPR_VALUE
    &&& b[3].name@ == "or"@ && b[3].id == Lexer::kOR && b[3].modifier_id == Lexer::kOR && b[3].state == EXPR_VALUE
}
proof fn lemma_bucket_2(b: Seq<ReservedWord>) requires raw_2(b) ensures bucket_ok(b, 2) { reveal(kw_tab); lemma_name_do(); lemma_name_if(); lemma_name_in(); lemma_name_or(); }
pub open spec fn raw_3(b: Seq<ReservedWord>) -> bool {
    &&& b.len() == 7
    &&& b[0].name@ == "END"@ && b[0].id == Lexer::klEND && b[0].modifier_id == Lexer::klEND && b[0].state == EXPR_END
    &&& b[1].name@ == "and"@ && b[1].id == Lexer::kAND && b[1].modifier_id == Lexer::kAND && b[1].state == EXPR_VALUE
    &&& b[2].name@ == "def"@ && b[2].id == Lexer::kDEF && b[2].modifier_id == Lexer::kDEF && b[2].state == EXPR_FNAME
    &&& b[3].name@ == "end"@ && b[3].id == Lexer::kEND && b[3].modifier_id == Lexer::kEND && b[3].state == EXPR_END
    &&& b[4].name@ == "for"@ && b[4].id == Lexer::kFOR && b[4].modifier_id == Lexer::kFOR && b[4].state == EXPR_VALUE
    &&& b[5].name@ == "nil"@ && b[5].id == Lexer::kNIL && b[5].modifier_id == Lexer::kNIL && b[5].state == EXPR_END
    &&& b[6].name@ == "not"@ && b[6].id == Lexer::kNOT && b[6].modifier_id == Lexer::kNOT && b[6].state == EXPR_ARG
}
proof fn lemma_bucket_3(b: Seq<ReservedWord>) requires raw_3(b) ensures bucket_ok(b, 3) { reveal(kw_tab); lemma_name_END(); lemma_name_and(); lemma_name_def(); lemma_name_end(); lemma_name_for(); lemma_name_nil(); lemma_name_not(); }
pub open spec fn raw_4(b: Seq<ReservedWord>) -> bool {
    &&& b.len() == 8
    &&& b[0].name@ == "case"@ && b[0].id == Lexer::kCASE && b[0].modifier_id == Lexer::kCASE && b[0].state == EXPR_VALUE
    &&& b[1].name@ == "else"@ && b[1].id == Lexer::kELSE && b[1].modifier_id == Lexer::kELSE && b[1].state == EXPR_BEG
    &&& b[2].name@ == "next"@ && b[2].id == Lexer::kNEXT && b[2].modifier_id == Lexer::kNEXT && b[2].state == EXPR_MID
    &&& b[3].name@ == "redo"@ && b[3].id == Lexer::kREDO && b[3].modifier_id == Lexer::kREDO && b[3].state == EXPR_END
    &&& b[4].name@ == "self"@ && b[4].id == Lexer::kSELF && b[4].modifier_id == Lexer::kSELF && b[4].state == EXPR_END
    &&& b[5].name@ == "then"@ && b[5].id == Lexer::kTHEN && b[5].modifier_id == Lexer::kTHEN && b[5].state == EXPR_BEG
    &&& b[6].name@ == "true"@ && b[6].id == Lexer::kTRUE && b[6].modifier_id == Lexer::kTRUE && b[6].state == EXPR_END
    &&& b[7].name@ == "when"@ && b[7].id == Lexer::kWHEN && b[7].modifier_id == Lexer::kWHEN && b[7].state == EXPR_VALUE
}
proof fn lemma_bucket_4(b: Seq<ReservedWord>) requires raw_4(b) ensures bucket_ok(b, 4) { reveal(kw_tab); lemma_name_case(); lemma_name_else(); lemma_name_next(); lemma_name_redo(); lemma_name_self(); lemma_name_then(); lemma_name_true(); lemma_name_when(); }
pub open spec fn raw_5(b: Seq<ReservedWord>) -> bool {
    &&& b.len() == 13
    &&& b[0].name@ == "BEGIN"@ && b[0].id == Lexer::klBEGIN && b[0].modifier_id == Lexer::klBEGIN && b[0].state == EXPR_END
    &&& b[1].name@ == "alias"@ && b[1].id == Lexer::kALIAS && b[1].modifier_id == Lexer::kALIAS && b[1].state == EXPR_FNAME | EXPR_FITEM
    &&& b[2].name@ == "begin"@ && b[2].id == Lexer::kBEGIN && b[2].modifier_id == Lexer::kBEGIN && b[2].state == EXPR_BEG
    &&& b[3].name@ == "break"@ && b[3].id == Lexer::kBREAK && b[3].modifier_id == Lexer::kBREAK && b[3].state == EXPR_MID
    &&& b[4].name@ == "class"@ && b[4].id == Lexer::kCLASS && b[4].modifier_id == Lexer::kCLASS && b[4].state == EXPR_CLASS
    &&& b[5].name@ == "elsif"@ && b[5].id == Lexer::kELSIF && b[5].modifier_id == Lexer::kELSIF && b[5].state == EXPR_VALUE
    &&& b[6].name@ == "false"@ && b[6].id == Lexer::kFALSE && b[6].modifier_id == Lexer::kFALSE && b[6].state == EXPR_END
    &&& b[7].name@ == "retry"@ && b[7].id == Lexer::kRETRY && b[7].modifier_id == Lexer::kRETRY && b[7].state == EXPR_END
    &&& b[8].name@ == "super"@ && b[8].id == Lexer::kSUPER && b[8].modifier_id == Lexer::kSUPER && b[8].state == EXPR_ARG
    &&& b[9].name@ == "undef"@ && b[9].id == Lexer::kUNDEF && b[9].modifier_id == Lexer::kUNDEF && b[9].state == EXPR_FNAME | EXPR_FITEM
    &&& b[10].name@ == "until"@ && b[10].id == Lexer::kUNTIL && b[10].modifier_id == Lexer::kUNTIL_MOD && b[10].state == EXPR_VALUE
    &&& b[11].name@ == "while"@ && b[11].id == Lexer::kWHILE && b[11].modifier_id == Lexer::kWHILE_MOD && b[11].state == EXPR_VALUE
    &&& b[12].name@ == "yield"@ && b[12].id == Lexer::kYIELD && b[12].modifier_id == Lexer::kYIELD && b[12].state == EXPR_ARG
}
proof fn lemma_bucket_5(b: Seq<ReservedWord>) requires raw_5(b) ensures bucket_ok(b, 5) { reveal(kw_tab); lemma_name_BEGIN(); lemma_name_alias(); lemma_name_begin(); lemma_name_break(); lemma_name_class(); lemma_name_elsif(); lemma_name_false(); lemma_name_retry(); lemma_name_super(); lemma_name_undef(); lemma_name_until(); lemma_name_while(); lemma_name_yield(); }
pub open spec fn raw_6(b: Seq<ReservedWord>) -> bool {
    &&& b.len() == 5
    &&& b[0].name@ == "ensure"@ && b[0].id == Lexer::kENSURE && b[0].modifier_id == Lexer::kENSURE && b[0].state == EXPR_BEG
    &&& b[1].name@ == "module"@ && b[1].id == Lexer::kMODULE && b[1].modifier_id == Lexer::kMODULE && b[1].state == EXPR_VALUE
    &&& b[2].name@ == "rescue"@ && b[2].id == Lexer::kRESCUE && b[2].modifier_id == Lexer::kRESCUE_MOD && b[2].state == EXPR_MID
    &&& b[3].name@ == "return"@ && b[3].id == Lexer::kRETURN && b[3].modifier_id == Lexer::kRETURN && b[3].state == EXPR_MID
    &&& b[4].name@ == "unless"@ && b[4].id == Lexer::kUNLESS && b[4].modifier_id == Lexer::kUNLESS_MOD && b[4].state == EXPR_VALUE
}
proof fn lemma_bucket_6(b: Seq<ReservedWord>) requires raw_6(b) ensures bucket_ok(b, 6) { reveal(kw_tab); lemma_name_ensure(); lemma_name_module(); lemma_name_rescue(); lemma_name_return(); lemma_name_unless(); }
pub open spec fn raw_7(b: Seq<ReservedWord>) -> bool {
    &&& b.len() == 0
}
proof fn lemma_bucket_7(b: Seq<ReservedWord>) requires raw_7(b) ensures bucket_ok(b, 7) { reveal(kw_tab);  }
pub open spec fn raw_8(b: Seq<ReservedWord>) -> bool {
    &&& b.len() == 3
    &&& b[0].name@ == "__FILE__"@ && b[0].id == Lexer::k__FILE__ && b[0].modifier_id == Lexer::k__FILE__ && b[0].state == EXPR_END
    &&& b[1].name@ == "__LINE__"@ && b[1].id == Lexer::k__LINE__ && b[1].modifier_id == Lexer::k__LINE__ && b[1].state == EXPR_END
    &&& b[2].name@ == "defined?"@ && b[2].id == Lexer::kDEFINED && b[2].modifier_id == Lexer::kDEFINED && b[2].state == EXPR_ARG
}
proof fn lemma_bucket_8(b: Seq<ReservedWord>) requires raw_8(b) ensures bucket_ok(b, 8) { reveal(kw_tab); lemma_name___FILE__(); lemma_name___LINE__(); lemma_name_defined_q(); }
pub open spec fn raw_9(b: Seq<ReservedWord>) -> bool {
    &&& b.len() == 0
}
proof fn lemma_bucket_9(b: Seq<ReservedWord>) requires raw_9(b) ensures bucket_ok(b, 9) { reveal(kw_tab);  }
pub open spec fn raw_10(b: Seq<ReservedWord>) -> bool {
    &&& b.len() == 0
}
proof fn lemma_bucket_10(b: Seq<ReservedWord>) requires raw_10(b) ensures bucket_ok(b, 10) { reveal(kw_tab);  }
pub open spec fn raw_11(b: Seq<ReservedWord>) -> bool {
    &&& b.len() == 0
}
proof fn lemma_bucket_11(b: Seq<ReservedWord>) requires raw_11(b) ensures bucket_ok(b, 11) { reveal(kw_tab);  }
pub open spec fn raw_12(b: Seq<ReservedWord>) -> bool {
    &&& b.len() == 1
    &&& b[0].name@ == "__ENCODING__"@ && b[0].id == Lexer::k__ENCODING__ && b[0].modifier_id == Lexer::k__ENCODING__ && b[0].state == EXPR_END
}
proof fn lemma_bucket_12(b: Seq<ReservedWord>) requires raw_12(b) ensures bucket_ok(b, 12) { reveal(kw_tab); lemma_name___ENCODING__(); }
pub open spec fn bucket_ok(b: Seq<ReservedWord>, n: int) -> bool { b.len() == kw_tab(n).len() && forall|k: int| #![trigger b[k]] 0 <= k < b.len() ==> same_kw(b[k], kw_tab(n)[k]) }
pub open spec fn raw_table(t: Seq<&'static [ReservedWord]>) -> bool { t.len() == 13 && raw_0(t[0]@) && raw_1(t[1]@) && raw_2(t[2]@) && raw_3(t[3]@) && raw_4(t[4]@) && raw_5(t[5]@) && raw_6(t[6]@) && raw_7(t[7]@) && raw_8(t[8]@) && raw_9(t[9]@) && raw_10(t[10]@) && raw_11(t[11]@) && raw_12(t[12]@) }
proof fn lemma_table(t: Seq<&'static [ReservedWord]>) requires raw_table(t) ensures table_ok(t)
{ lemma_bucket_0(t[0]@); lemma_bucket_1(t[1]@); lemma_bucket_2(t[2]@); lemma_bucket_3(t[3]@); lemma_bucket_4(t[4]@); lemma_bucket_5(t[5]@); lemma_bucket_6(t[6]@); lemma_bucket_7(t[7]@); lemma_bucket_8(t[8]@); lemma_bucket_9(t[9]@); lemma_bucket_10(t[10]@); lemma_bucket_11(t[11]@); lemma_bucket_12(t[12]@); assert forall|n: int| 0 <= n < 13 implies bucket_ok(#[trigger] t[n]@, n) by { if n <= 5 { if n <= 2 { if n == 0 {} else if n == 1 {} else { assert(n == 2); } } else { if n == 3 {} else if n == 4 {} else { assert(n == 5); } } } else { if n == 6 {} else if n == 7 {} else if n == 8 {} else if n == 9 {} else if n == 10 {} else if n == 11 {} else { assert(n == 12); } } } }
pub open spec fn table_ok(t: Seq<&'static [ReservedWord]>) -> bool { t.len() == 13 && forall|n: int| 0 <= n < 13 ==> bucket_ok(#[trigger] t[n]@, n) }
proof fn lemma_tab_long(n: int) requires n > 12 ensures kw_tab(n).len() == 0 { reveal(kw_tab); }
@end
@file src/lex_state.rs
@take lex_states EXPR_BEG EXPR_END EXPR_ENDARG EXPR_ENDFN EXPR_ARG EXPR_CMDARG EXPR_MID EXPR_FNAME EXPR_DOT EXPR_CLASS EXPR_LABEL EXPR_LABELED EXPR_FITEM EXPR_VALUE EXPR_BEG_ANY EXPR_ARG_ANY EXPR_END_ANY EXPR_NONE
@file src/parser/parse.rs
@take Lexer::*const
@skip Lexer::TOKEN_NAMES
@file src/reserved_words/reserved_word.rs all
@file src/reserved_words/list.rs all
@fn RESERVED_WORDS props=C10
@ensures
  table_ok(RESERVED_WORDS@),
@fnstart
  proof { lemma_table(vp_c@); }
@file src/reserved_words/mod.rs all
@fn reserved_word props=C10
@ensures
  r is Some ==> exists|k: int| 0 <= k < kw_tab(tok@.len() as int).len() && same_kw(*r->Some_0, #[trigger] kw_tab(tok@.len() as int)[k]) && kw_tab(tok@.len() as int)[k].name == tok@,
  r is Some ==> plain(r->Some_0.id) && plain(r->Some_0.modifier_id), // @C05 @C06 @C08 @C09
  r is None ==> forall|k: int| 0 <= k < kw_tab(tok@.len() as int).len() ==> (#[trigger] kw_tab(tok@.len() as int)[k]).name != tok@,
@rewrite |e| e.name.as_bytes().cmp(tok) ==> |e: &ReservedWord| -> (o: Ordering) ensures o == lexc(encode_utf8(e.name@), tok@) { e.name.as_bytes().cmp(tok) }
@fnstart
  broadcast use {vplex::ax_slice_cmp, vplex::ax_slice_obeys_cmp};
  proof {
    let n = tok@.len() as int;
    if n > 12 { lemma_tab_long(n); }
    assert forall|k: int| 0 <= k < kw_tab(n).len() implies plain((#[trigger] kw_tab(n)[k]).id) && plain(kw_tab(n)[k].modifier_id) by { lemma_tab_plain(n, k); }
    assert forall|i: int, j: int| 0 <= i < j < kw_tab(n).len() implies ole(lexc(#[trigger] kw_tab(n)[i].name, tok@), lexc(#[trigger] kw_tab(n)[j].name, tok@)) by { lemma_tab_sorted(n, i, j); lemma_lexc_mono(kw_tab(n)[i].name, kw_tab(n)[j].name, tok@); }
    assert forall|i: int| 0 <= i < kw_tab(n).len() implies (lexc(#[trigger] kw_tab(n)[i].name, tok@) is Equal <==> kw_tab(n)[i].name == tok@) by { lemma_lexc_eq(kw_tab(n)[i].name, tok@); }
  }
@locals tok bucket idx
@hint after RESERVED_WORDS.get(tok.len())?;
  proof { assert(forall|k: int| #![trigger kw_tab(tok@.len() as int)[k]] 0 <= k < kw_tab(tok@.len() as int).len() ==> same_kw($bucket@[k], kw_tab(tok@.len() as int)[k])); }
