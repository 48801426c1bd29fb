@props C16,C17
@include common.inc
@include chars.inc
@prelude
pub open spec fn bit(v: i32, i: u32) -> bool { (v & (1i32 << i)) != 0 }
/// any_of / all_of are the set relations on the 13 state bits
proof fn lemma_any_of_is_intersection(v: i32, m: i32)
    requires 0 <= m < 8192,
    ensures any_of(v, m) <==> (bit(v, 0) && bit(m, 0)) || (bit(v, 1) && bit(m, 1)) || (bit(v, 2) && bit(m, 2)) || (bit(v, 3) && bit(m, 3)) || (bit(v, 4) && bit(m, 4)) || (bit(v, 5) && bit(m, 5)) || (bit(v, 6) && bit(m, 6))
        || (bit(v, 7) && bit(m, 7)) || (bit(v, 8) && bit(m, 8)) || (bit(v, 9) && bit(m, 9)) || (bit(v, 10) && bit(m, 10)) || (bit(v, 11) && bit(m, 11)) || (bit(v, 12) && bit(m, 12)),
{
    assert((v & m) != 0 <==> ((v & (1i32 << 0)) != 0 && (m & (1i32 << 0)) != 0) || ((v & (1i32 << 1)) != 0 && (m & (1i32 << 1)) != 0) || ((v & (1i32 << 2)) != 0 && (m & (1i32 << 2)) != 0) || ((v & (1i32 << 3)) != 0 && (m & (1i32 << 3)) != 0) || ((v & (1i32 << 4)) != 0 && (m & (1i32 << 4)) != 0) || ((v & (1i32 << 5)) != 0 && (m & (1i32 << 5)) != 0) || ((v & (1i32 << 6)) != 0 && (m & (1i32 << 6)) != 0) || ((v & (1i32 << 7)) != 0 && (m & (1i32 << 7)) != 0) || ((v & (1i32 << 8)) != 0 && (m & (1i32 << 8)) != 0) || ((v & (1i32 << 9)) != 0 && (m & (1i32 << 9)) != 0) || ((v & (1i32 << 10)) != 0 && (m & (1i32 << 10)) != 0) || ((v & (1i32 << 11)) != 0 && (m & (1i32 << 11)) != 0) || ((v & (1i32 << 12)) != 0 && (m & (1i32 << 12)) != 0)) by(bit_vector) requires 0 <= m < 8192;
}
proof fn lemma_all_of_is_inclusion(v: i32, m: i32, i: u32)
    requires 0 <= i < 31, all_of(v, m), bit(m, i),
    ensures bit(v, i),
{
    assert((v & m) == m && (m & (1i32 << i)) != 0 ==> (v & (1i32 << i)) != 0) by(bit_vector) requires 0 <= i < 31;
}
/// the 13 states are distinct bits (so a state is never mistaken for another)
proof fn lemma_states_are_distinct_bits()
    ensures EXPR_BEG == 1, EXPR_END == 2, EXPR_ENDARG == 4, EXPR_ENDFN == 8, EXPR_ARG == 16, EXPR_CMDARG == 32, EXPR_MID == 64, EXPR_FNAME == 128, EXPR_DOT == 256, EXPR_CLASS == 512, EXPR_LABEL == 1024, EXPR_LABELED == 2048, EXPR_FITEM == 4096,
        EXPR_VALUE == EXPR_BEG, EXPR_NONE == 0,
{
    assert(1i32 << 0 == 1 && 1i32 << 1 == 2 && 1i32 << 2 == 4 && 1i32 << 3 == 8 && 1i32 << 4 == 16 && 1i32 << 5 == 32 && 1i32 << 6 == 64 && 1i32 << 7 == 128 && 1i32 << 8 == 256 && 1i32 << 9 == 512 && 1i32 << 10 == 1024 && 1i32 << 11 == 2048 && 1i32 << 12 == 4096) by(bit_vector);
}
@end
