//! C12: operation sequences on the stacks and flags that drive the lexer, against plain models.
//! The modules are the repository's own files.
use crate::gen::*;
#[path = "/repo/src/context.rs"]
mod context;
#[path = "/repo/src/current_arg_stack.rs"]
mod current_arg_stack;
#[path = "/repo/src/max_numparam_stack.rs"]
mod max_numparam_stack;
#[path = "/repo/src/stack_state.rs"]
mod stack_state;
#[path = "/repo/src/variables_stack.rs"]
mod variables_stack;
use std::collections::BTreeSet;

pub trait Prop: Send + Sync {
    fn check(&self, input: &[u8]) -> Result<(), String>;
    fn on_panic(&self, loc: &str, msg: &str) -> Result<(), String> { Err(format!("panicked at {}: {}", loc, msg)) }
    fn exhaustive(&self, _cx: &Ctx, _depth: usize, _f: &mut dyn FnMut(Vec<u8>)) {}
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8>;
    fn known_class(&self, _what: &str) -> Option<String> { None }
    fn hang_is_violation(&self) -> bool { false }
    fn show(&self, b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }
    fn bound(&self, depth: usize) -> String;
}
pub fn get(_: &str) -> Box<dyn Prop> { Box::new(C12) }

/// first byte: which structure; the others: operations
struct C12;
const KINDS: u8 = 5;
fn ne<T: PartialEq + std::fmt::Debug>(k: usize, what: &str, got: T, exp: T) -> Result<(), String> {
    if got == exp { Ok(()) } else { Err(format!("after operation {}: {} is {:?}, expected {:?}", k, what, got, exp)) }
}
const NAMES: &[&str] = &["a", "b", "é", ""];
impl Prop for C12 {
    fn check(&self, b: &[u8]) -> Result<(), String> {
        if b.is_empty() { return Ok(()) }
        let ops = &b[1..];
        match b[0] % KINDS {
            0 => {
                // LIFO of booleans, 64 deep; popping an empty stack keeps it empty; below the bottom: false
                let mut s = stack_state::StackState::new("x");
                let mut m: Vec<bool> = vec![];
                for (k, o) in ops.iter().enumerate() {
                    match o % 3 { 0 => { s.push(true); m.push(true) } 1 => { s.push(false); m.push(false) } _ => { s.pop(); m.pop(); } }
                    let n = m.len();
                    let win = &m[n.saturating_sub(64)..];
                    if n > 64 { m.drain(..n - 64); ne(k, "is_active", s.is_active(), *m.last().unwrap())?; ne(k, "is_empty", s.is_empty(), m.iter().all(|x| !x))?; continue }
                    ne(k, "is_active", s.is_active(), win.last().copied().unwrap_or(false))?;
                    ne(k, "is_empty", s.is_empty(), win.iter().all(|x| !x))?;
                    let c = s.clone();
                    ne(k, "clone.is_active", c.is_active(), s.is_active())?;
                }
            }
            1 => {
                let s = variables_stack::VariablesStack::new();
                let mut m: Vec<BTreeSet<usize>> = vec![];
                for (k, o) in ops.iter().enumerate() {
                    match o % 6 { 0 => { s.push(); m.push(BTreeSet::new()) } 1 => { s.pop(); m.pop(); } n => if let Some(t) = m.last_mut() { s.declare(NAMES[n as usize - 2]); t.insert(n as usize - 2); } }
                    ne(k, "is_empty", s.is_empty(), m.is_empty())?;
                    if let Some(t) = m.last() { for i in 0..4 { ne(k, "is_declared", s.is_declared(NAMES[i]), t.contains(&i))? } }
                }
            }
            2 => {
                let s = current_arg_stack::CurrentArgStack::new();
                let mut m: Vec<Option<String>> = vec![];
                for (k, o) in ops.iter().enumerate() {
                    let v = match (o >> 4) % 4 { 0 => None, i => Some(NAMES[i as usize].to_string()) };
                    match o % 3 { 0 => { s.push(v.clone()); m.push(v) } 1 => { s.pop(); m.pop(); } _ => { s.set(v.clone()); m.pop(); m.push(v) } }
                    ne(k, "is_empty", s.is_empty(), m.is_empty())?;
                    ne(k, "top", s.top(), m.last().cloned().flatten())?;
                }
            }
            3 => {
                let s = max_numparam_stack::MaxNumparamStack::new();
                let mut m: Vec<(i32, bool)> = vec![];
                for (k, o) in ops.iter().enumerate() {
                    match o % 5 {
                        0 => { s.push(true); m.push((0, true)) }
                        1 => { s.push(false); m.push((0, false)) }
                        2 => { s.pop(); m.pop(); }
                        3 => if let Some(t) = m.last_mut() { let n = ((*o / 5) % 10) as i32; s.register(n); t.0 = t.0.max(n) }
                        _ => if let Some(t) = m.last_mut() { s.set_has_ordinary_params(); t.0 = -1 }
                    }
                    let top = m.last().map(|t| t.0).unwrap_or(i32::MIN);
                    ne(k, "top", s.top(), top)?;
                    ne(k, "is_empty", s.is_empty(), m.is_empty())?;
                    ne(k, "has_ordinary_params", s.has_ordinary_params(), top == -1)?;
                    ne(k, "has_numparams", s.has_numparams(), top > 0)?;
                    let got: Vec<(i32, bool)> = s.inner_clone().iter().map(|i| (i.value, i.is_static)).collect();
                    if got != m { return Err(format!("after operation {}: stack is {:?}, expected {:?}", k, got, m)) }
                }
            }
            _ => {
                let mut s = context::SharedContext::new();
                let mut other = s.clone();
                let mut m = [false; 7];
                for (k, o) in ops.iter().enumerate() {
                    let v = o & 8 != 0;
                    let t = if o & 16 != 0 { &mut other } else { &mut s };
                    let i = (o & 7) % 7;
                    match i { 0 => t.set_in_defined(v), 1 => t.set_in_kwarg(v), 2 => t.set_in_argdef(v), 3 => t.set_in_def(v), 4 => t.set_in_class(v), 5 => t.set_in_lambda(v), _ => t.set_in_block(v) }
                    m[i as usize] = v;
                    let d = s.dump();
                    for (who, got) in [("flags", [s.in_defined(), s.in_kwarg(), s.in_argdef(), s.in_def(), s.in_class(), s.in_lambda(), s.in_block()]), ("dumped flags", [d.in_defined(), d.in_kwarg(), d.in_argdef(), d.in_def(), d.in_class(), d.in_lambda(), d.in_block()])] { ne(k, who, got, m)? }
                    ne(k, "is_in_dynamic_block", s.is_in_dynamic_block(), m[5] || m[6])?;
                    ne(k, "is_empty", s.is_empty(), m.iter().all(|x| !x))?;
                }
            }
        }
        Ok(())
    }
    fn exhaustive(&self, _: &Ctx, depth: usize, f: &mut dyn FnMut(Vec<u8>)) {
        for k in 0..KINDS {
            let ops: &[&[u8]] = match k { 0 => &[&[0], &[1], &[2]], 1 => &[&[0], &[1], &[2], &[3]], 2 => &[&[0], &[48], &[1], &[2], &[17]], 3 => &[&[0], &[1], &[2], &[8], &[23], &[4]], _ => &[&[0], &[8], &[1], &[9], &[5], &[13], &[22], &[30]] };
            let n = match k { 0 => 10, 1 => 7, 2 => 6, 3 => 5, _ => 4 } + depth;
            product(ops, n, &mut |v| { let mut w = vec![k]; w.extend(v); f(w) })
        }
    }
    fn random(&self, r: &mut Rng, cx: &Ctx) -> Vec<u8> {
        let k = r.below(KINDS as usize) as u8;
        let n = match r.below(4) { 0 => count(r, cx, 100), 1 => 60 + r.below(40), _ => r.below(40) };
        let bias = r.below(3) as u8;
        let mut v = vec![k];
        for _ in 0..n { v.push(if k == 0 && r.one_in(2) { bias % 2 } else { r.below(256) as u8 }) }
        v
    }
    fn show(&self, b: &[u8]) -> String { format!("{} operations {:?}", ["StackState", "VariablesStack", "CurrentArgStack", "MaxNumparamStack", "SharedContext"][(b.first().copied().unwrap_or(0) % KINDS) as usize], b.get(1..)) }
    fn bound(&self, d: usize) -> String { format!("all operation sequences up to length {} (per structure), plus random ones up to 1100", 4 + d) }
}
