@prelude
// ---------- squiggly here documents ----------
/// the builder's own state is not used to dedent
pub struct Builder { x: u8 }
/// column after a blank that starts at col
pub open spec fn col_after(col: int, c: u8) -> int { if c == 9 { col - col % 8 + 8 } else { col + 1 } }
pub open spec fn blank(c: u8) -> bool { c == 32 || c == 9 }
/// where the text of a line begins once the blanks that fit into width are gone, from i (at column col) on
pub open spec fn dd(s: Seq<u8>, i: int, col: int, width: int) -> int decreases s.len() - i {
    if !(0 <= i < s.len() && col < width) || !blank(s[i]) || col_after(col, s[i]) > width { i } else { dd(s, i + 1, col_after(col, s[i]), width) }
}
/// the column that the first k bytes, all blank, reach
pub open spec fn col_of(s: Seq<u8>, k: int) -> int decreases k { if k <= 0 { 0 } else { col_after(col_of(s, k - 1), s[k - 1]) } }
/// exactly the leading blanks that fit are removed: the removed ones are blanks and fit, and the next one, if any, does not
pub proof fn lemma_dd(s: Seq<u8>, i: int, width: int)
    requires 0 <= i <= s.len(), 0 < width, col_of(s, i) <= width, forall|j: int| 0 <= j < i ==> blank(#[trigger] s[j]),
    ensures ({ let k = dd(s, i, col_of(s, i), width); i <= k <= s.len() && (forall|j: int| 0 <= j < k ==> blank(#[trigger] s[j])) && col_of(s, k) <= width && (k == s.len() || !blank(s[k]) || col_of(s, k + 1) > width) }),
    decreases s.len() - i
{
    if 0 <= i < s.len() && col_of(s, i) < width && blank(s[i]) && col_after(col_of(s, i), s[i]) <= width {
        assert(col_of(s, i + 1) == col_after(col_of(s, i), s[i]));
        lemma_dd(s, i + 1, width);
    } else if i < s.len() { assert(col_of(s, i + 1) == col_after(col_of(s, i), s[i])); }
}
pub open spec fn cut(s: Seq<u8>, width: int) -> Seq<u8> { s.skip(dd(s, 0, 0, width)) }
pub enum PartV { Text { value: Seq<u8>, begin_l: Option<Loc>, end_l: Option<Loc>, expression_l: Loc }, Other(Node) }
pub open spec fn pv(n: Node) -> PartV { match n { Node::Str(s) => PartV::Text { value: s.value.raw@, begin_l: s.begin_l, end_l: s.end_l, expression_l: s.expression_l }, _ => PartV::Other(n) } }
/// part k starts a line unless an interpolation precedes it
pub open spec fn at_bol(parts: Seq<Node>, k: int) -> bool { k <= 0 || parts[k - 1] is Str }
/// what is left of the first k parts
pub open spec fn left(parts: Seq<Node>, k: int, width: int) -> Seq<PartV> decreases k {
    if k <= 0 { seq![] } else { match pv(parts[k - 1]) {
        PartV::Text { value, begin_l, end_l, expression_l } => { let v = if at_bol(parts, k - 1) { cut(value, width) } else { value };
            if v.len() == 0 { left(parts, k - 1, width) } else { left(parts, k - 1, width).push(PartV::Text { value: v, begin_l, end_l, expression_l }) } },
        PartV::Other(n) => left(parts, k - 1, width).push(PartV::Other(n)),
    } }
}
pub open spec fn views(p: Seq<Node>) -> Seq<PartV> { p.map_values(|n: Node| pv(n)) }
pub open spec fn part_ok(n: Node) -> bool { n is Str || n is Begin || n is Gvar || n is BackRef || n is NthRef || n is Ivar || n is Cvar }
pub open spec fn parts_ok(p: Seq<Node>) -> bool { forall|i: int| 0 <= i < p.len() ==> part_ok(#[trigger] p[i]) }
pub fn vp_usize_from_i32(x: i32) -> (r: usize) requires 0 <= x ensures r == x { x as usize }
@end
@file src/builder.rs
@take Builder::TAB_WIDTH Builder::dedent_string Builder::heredoc_dedent
@fn Builder::dedent_string isolate props=C13
@locals s width col i n
@rewrite s[i] ==> s.as_raw()[i]
@requires
  width <= 0x7fff_ffff,
@ensures
  r.raw@ == cut(s.raw@, width as int),
@loop 0
  invariant $i <= $s.raw@.len(), $col <= width, width <= 0x7fff_ffff, dd($s.raw@, 0, 0, width as int) == dd($s.raw@, $i as int, $col as int, width as int),
  ensures dd($s.raw@, 0, 0, width as int) == $i,
@fn Builder::heredoc_dedent props=C13
@locals node dedent_level dedent_level dedent_heredoc_parts parts bol part value begin_l end_l expression_l value other
@rewrite dedent_level .try_into() .expect("dedent_level must be positive") ==> vp_usize_from_i32(dedent_level)
@rewrite |parts: Vec<Node>| -> Vec<Node> { ==> |parts: Vec<Node>| -> (vp_r: Vec<Node>) requires parts_ok(parts@) ensures views(vp_r@) == left(parts@, parts@.len() as int, dedent_level as int) { let ghost vp_p = parts@;
@requires
  dedent_level >= 0,
  *node is Heredoc ==> parts_ok((*node)->Heredoc_0.parts@), *node is XHeredoc ==> parts_ok((*node)->XHeredoc_0.parts@),
@ensures
  dedent_level == 0 ==> r == node,
  dedent_level > 0 && *node is Heredoc ==> *r is Heredoc && ({ let a = (*node)->Heredoc_0; let b = (*r)->Heredoc_0; views(b.parts@) == left(a.parts@, a.parts@.len() as int, dedent_level as int) && b == (Heredoc { parts: b.parts, ..a }) }),
  dedent_level > 0 && *node is XHeredoc ==> *r is XHeredoc && ({ let a = (*node)->XHeredoc_0; let b = (*r)->XHeredoc_0; views(b.parts@) == left(a.parts@, a.parts@.len() as int, dedent_level as int) && b == (XHeredoc { parts: b.parts, ..a }) }),
  !(*node is Heredoc) && !(*node is XHeredoc) ==> r == node,
@loop 0
  invariant dedent_level <= 0x7fff_ffff, parts_ok(vp_p), vp_q0@.len() <= vp_p.len(), vp_q0@ =~= vp_p.skip(vp_p.len() - vp_q0@.len()),
    bol == at_bol(vp_p, vp_p.len() - vp_q0@.len()), views(vp_o0@) =~= left(vp_p, vp_p.len() - vp_q0@.len(), dedent_level as int),
