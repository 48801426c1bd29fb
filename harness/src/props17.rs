//! C16 / C17: the repository's own maybe_byte.rs, token_buf.rs and lex_state.rs against plain tables.
use crate::gen::*;
use crate::lex_state::{lex_states::*, LexState};
use crate::maybe_byte::MaybeByte;
use crate::token_buf::TokenBuf;

pub trait Prop: Send + Sync {
    fn check(&self, input: &[u8]) -> Result<(), String>;
    fn on_panic(&self, loc: &str, msg: &str) -> Result<(), String> { Err(format!("panicked at {}: {}", loc, msg)) }
    fn exhaustive(&self, _cx: &Ctx, _depth: usize, _f: &mut dyn FnMut(Vec<u8>)) {}
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8>;
    fn known_class(&self, _what: &str) -> Option<String> { None }
    fn hang_is_violation(&self) -> bool { false }
    fn show(&self, b: &[u8]) -> String { format!("{:?}", b) }
    fn bound(&self, depth: usize) -> String;
}
pub fn get(id: &str) -> Box<dyn Prop> { if id == "C16" { Box::new(C16) } else { Box::new(C17) } }
fn ne<T: PartialEq + std::fmt::Debug>(what: &str, got: T, exp: T) -> Result<(), String> {
    if got == exp { Ok(()) } else { Err(format!("{} is {:?}, expected {:?}", what, got, exp)) }
}
fn mb(i: u16) -> MaybeByte { if i < 256 { MaybeByte::Some(i as u8) } else { MaybeByte::EndOfInput } }
/// bytes 0..4 state, 4..8 mask, then next character (2 bytes), flags
struct C16;
const BITS: [i32; 13] = [EXPR_BEG, EXPR_END, EXPR_ENDARG, EXPR_ENDFN, EXPR_ARG, EXPR_CMDARG, EXPR_MID, EXPR_FNAME, EXPR_DOT, EXPR_CLASS, EXPR_LABEL, EXPR_LABELED, EXPR_FITEM];
impl Prop for C16 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        if b.len() < 11 { return Ok(()) }
        let v = i32::from_le_bytes([b[0], b[1], b[2], b[3]]);
        let m = i32::from_le_bytes([b[4], b[5], b[6], b[7]]);
        let c = mb((b[8] as u16) | ((b[9] as u16) << 8));
        let (f1, f2) = (b[10] & 1 != 0, b[10] & 2 != 0);
        for i in 0..13 { for j in 0..13 { if (i == j) != (BITS[i] == BITS[j]) { return Err("states are not distinct".into()) } } ne("bits of a state", BITS[i].count_ones(), 1)?; }
        for s0 in [0, -1, 1, m, v] {
            let mut s = LexState { value: s0 };
            s.set(v);
            ne("get after set", s.get(), v)?;
            ne("value after set", s.value, v)?;
            let bits = |x: i32| -> std::collections::BTreeSet<u32> { (0..32).filter(|i| (x as u32) >> i & 1 == 1).collect() };
            let (bv, bm) = (bits(v), bits(m));
            ne("is", s.is(m), v == m)?;
            ne("is_some", s.is_some(m), !bv.is_disjoint(&bm))?;
            ne("is_all", s.is_all(m), bm.is_subset(&bv))?;
            let has = |k: usize| v & BITS[k] != 0;
            let arg = has(4) || has(5);
            ne("is_after_operator", s.is_after_operator(), has(7) || has(8))?;
            ne("is_end", s.is_end(), has(1) || has(2) || has(3))?;
            ne("is_arg", s.is_arg(), arg)?;
            ne("is_label_possible", s.is_label_possible(f1), ((has(10) || has(3)) && !f1) || arg)?;
            let sp = match c { MaybeByte::Some(c) => b" \t\n\x0b\x0c\r".contains(&c), MaybeByte::EndOfInput => false };
            ne("is_spacearg", s.is_spacearg(c, f2), arg && f2 && !sp)?;
            ne("is_beg", s.is_beg(), has(0) || has(6) || has(9) || (has(4) && has(11)))?;
            ne("masks", (EXPR_BEG_ANY, EXPR_ARG_ANY, EXPR_END_ANY, EXPR_VALUE, EXPR_NONE), (BITS[0] | BITS[6] | BITS[9], BITS[4] | BITS[5], BITS[1] | BITS[2] | BITS[3], BITS[0], 0))?;
        }
        Ok(())
    }
    fn exhaustive(&self, _: &Ctx, _: usize, f: &mut dyn FnMut(Vec<u8>)) {
        for v in 0..8192i32 { for (m, c, g) in [(0, 32u16, 3u8), (v, 97, 1), (EXPR_ARG, 256, 2), (8191, 10, 0)] {
            let mut x = v.to_le_bytes().to_vec(); x.extend((m as i32).to_le_bytes()); x.extend(c.to_le_bytes()); x.push(g); f(x)
        } }
        for i in 0..13 { for j in 0..13 { for c in 0..257u16 { for g in 0..4u8 {
            let mut x = (BITS[i] | BITS[(j + 1) % 13]).to_le_bytes().to_vec(); x.extend(BITS[j].to_le_bytes()); x.extend(c.to_le_bytes()); x.push(g); f(x)
        } } } }
    }
    fn random(&self, r: &mut Rng, _: &Ctx) -> Vec<u8> { let sh = if r.one_in(3) { 0 } else { 19 }; let mut x = ((r.next() as u32 >> sh) as i32).to_le_bytes().to_vec(); x.extend(((r.next() as u32 >> sh) as i32).to_le_bytes()); x.extend((r.below(257) as u16).to_le_bytes()); x.push(r.below(4) as u8); x }
    fn bound(&self, _: usize) -> String { "all 8192 states with 4 masks each, all pairs of single states with every next character, plus random 32-bit values".into() }
}
/// one byte: classes of that byte (and of end of input); more: operations on a token buffer
struct C17;
impl Prop for C17 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        if b.len() <= 1 {
            let m = match b.first() { Some(c) => MaybeByte::Some(*c), None => MaybeByte::EndOfInput };
            let c = b.first().copied();
            let has = |s: &[u8]| c.map(|c| s.contains(&c)).unwrap_or(false);
            let digits = b"0123456789"; let lower = b"abcdefghijklmnopqrstuvwxyz"; let upper = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ";
            ne("is_eof", m.is_eof(), c.is_none())?;
            ne("is_some", m.is_some(), c.is_some())?;
            ne("as_option", m.as_option(), c)?;
            if let Some(c) = c { ne("expect", m.expect("x"), c)? }
            ne("is_ascii", m.is_ascii(), c.map(|c| c < 128).unwrap_or(false))?;
            ne("is_alpha", m.is_alpha(), has(lower) || has(upper))?;
            ne("is_digit", m.is_digit(), has(digits))?;
            ne("is_alnum", m.is_alnum(), has(lower) || has(upper) || has(digits))?;
            ne("is_hexdigit", m.is_hexdigit(), has(digits) || has(b"abcdefABCDEF"))?;
            ne("is_space", m.is_space(), has(b" \t\n\x0b\x0c\r"))?;
            ne("is_global_name_punct", m.is_global_name_punct(), has(b"~*$?!@/\\;,.=:<>\"&`'+0"))?;
            ne("is_control", m.is_control(), c.map(|c| c < 32 || (127..160).contains(&c)).unwrap_or(false))?;
            ne("escaped_control_code", m.escaped_control_code(), c.and_then(|c| b" \n\t\x0b\r\x0c".iter().position(|x| *x == c)).map(|i| b"sntvrf"[i]))?;
            for k in 0..=255u8 {
                ne("== byte", m == k, c == Some(k))?;
                ne("== Some(byte)", m == Some(k), c == Some(k))?;
                ne("== MaybeByte", m == MaybeByte::Some(k), c == Some(k))?;
                ne("< byte", m < k, c.map(|c| c < k).unwrap_or(true))?;
                ne(">= byte", m >= k, c.map(|c| c >= k).unwrap_or(false))?;
            }
            ne("== EndOfInput", m == MaybeByte::EndOfInput, c.is_none())?;
            ne("map", m.map(|c| MaybeByte::Some(c ^ 1)).as_option(), c.map(|c| c ^ 1))?;
            return Ok(());
        }
        let n = (b[0] % 5) as usize;
        let n = n.min(b.len() - 1);
        let mut t = TokenBuf::new(&b[1..1 + n]);
        let mut m = b[1..1 + n].to_vec();
        let mut i = 1 + n;
        while i < b.len() {
            let o = b[i];
            i += 1;
            match o % 8 {
                0..=3 => { if i < b.len() { t.push(b[i]); m.push(b[i]); i += 1 } }
                4 | 5 => { let k = (o as usize / 8 % 6).min(b.len() - i); t.append(&b[i..i + k]); m.extend(&b[i..i + k]); i += k }
                6 => { let u = t.take(); ne("taken bytes", u.bytes.as_raw().clone(), m.clone())?; m.clear() }
                _ => { t.clear(); m.clear() }
            }
            ne("bytes", t.bytes.as_raw().clone(), m.clone())?;
            ne("len", t.len(), m.len())?;
            match (t.borrow_string(), std::str::from_utf8(&m)) { (Ok(a), Ok(b)) => ne("borrow_string", a, b)?, (Err(a), Err(_)) => ne("borrow_string", a, &m[..])?, (a, _) => return Err(format!("borrow_string is {:?}", a)) }
            if let Ok(s) = std::str::from_utf8(&m) { ne("== str", t == *s, true)?; }
            ne("== other", t == *"end", m == b"end")?;
        }
        Ok(())
    }
    fn exhaustive(&self, _: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) {
        f(vec![]);
        for c in 0..=255u8 { f(vec![c]) }
        for a in 0..=255u8 { for k in 0..8 { f(vec![1, b'x', 0, a, k, 7, a]) } }
        product(&[b"\x00e", b"\x01\xc3", b"\x0cab", b"\x1cend", b"\x06", b"\x07", b"\x02d", b"\x03n"], 3 + depth, &mut |v| { let mut x = vec![0]; x.extend(v); f(x) });
    }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> { if r.one_in(8) { let mut v = vec![0]; let n = count(r, cx, 64); v.extend((0..2 * n).map(|i| if i % 2 == 0 { r.below(4) as u8 } else { r.below(256) as u8 })); return v } let n = r.below(40); (0..n).map(|_| if r.one_in(2) { r.below(256) as u8 } else { r.below(8) as u8 }).collect() }
    fn bound(&self, d: usize) -> String { format!("every byte and end of input; operation sequences of length {} over 8 operations and random ones", 3 + d) }
}
