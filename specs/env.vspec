@props C11,C12
@include common.inc
@prelude
global size_of usize == 8;
// ---------- trusted model of std::collections::BTreeSet<String> ----------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct BTreeSet<T> { x: std::collections::BTreeSet<T> }
impl BTreeSet<String> {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: bool) ensures final(self)@ == old(self)@.remove(k@), r == old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&String>) ensures r is Some <==> self@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &str) -> (r: bool) ensures r <==> self@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
impl VpDefault for BTreeSet<String> { open spec fn is_default(&self) -> bool { self@ == Set::<Seq<char>>::empty() } #[verifier::external_body] fn vp_default() -> Self { unimplemented!() } }
// ---------- abstract state ----------
/// a scope is the set of names declared in it
pub open spec fn frames(s: Seq<BTreeSet<String>>) -> Seq<Set<Seq<char>>> { Seq::new(s.len(), |i: int| s[i]@) }
impl StaticEnvironment {
    pub open spec fn cur(&self) -> Set<Seq<char>> { self.variables@ }
    pub open spec fn outer(&self) -> Seq<Set<Seq<char>>> { frames(self.stack@) }
}
impl VariablesStack { pub open spec fn fr(&self) -> Seq<Set<Seq<char>>> { frames(self.stack@) } }
impl StackState {
    pub open spec fn at(&self, i: int) -> bool { 0 <= i < 64 && ((self.stack >> (i as usize)) & 1) == 1 }
}
proof fn lemma_shl(s: usize, b: usize, r: usize)
    requires b <= 1, r == (s << 1usize) | b,
    ensures (r & 1) == b, forall|i: usize| #![trigger r >> i] 0 < i < 64 ==> ((r >> i) & 1) == ((s >> ((i - 1) as usize)) & 1),
{
    assert((((s << 1usize) | b) & 1) == b) by (bit_vector) requires b <= 1;
    assert forall|i: usize| #![trigger r >> i] 0 < i < 64 implies ((r >> i) & 1) == ((s >> ((i - 1) as usize)) & 1) by {
        let j = (i - 1) as usize;
        assert(((((s << 1usize) | b) >> i) & 1) == ((s >> j) & 1)) by (bit_vector) requires b <= 1, 0 < i < 64, j == sub(i, 1);
    }
}
proof fn lemma_shr(s: usize, r: usize)
    requires r == s >> 1usize,
    ensures forall|i: usize| #![trigger r >> i] i < 63 ==> ((r >> i) & 1) == ((s >> ((i + 1) as usize)) & 1), ((r >> 63usize) & 1) == 0,
{
    assert((((s >> 1usize) >> 63usize) & 1) == 0) by (bit_vector);
    assert forall|i: usize| #![trigger r >> i] i < 63 implies ((r >> i) & 1) == ((s >> ((i + 1) as usize)) & 1) by {
        let j = (i + 1) as usize;
        assert((((s >> 1usize) >> i) & 1) == ((s >> j) & 1)) by (bit_vector) requires i < 63, j == add(i, 1);
    }
}
proof fn lemma_empty(s: usize)
    ensures s == 0 <==> (forall|i: usize| #![trigger s >> i] i < 64 ==> ((s >> i) & 1) != 1)
{
    assert(forall|i: usize| #![trigger 0usize >> i] i < 64 ==> ((0usize >> i) & 1) != 1) by (bit_vector);
    if s != 0 {
        let k = lemma_some_bit(s);
    }
}
proof fn lemma_some_bit(s: usize) -> (k: usize)
    requires s != 0,
    ensures k < 64, ((s >> k) & 1) == 1,
    decreases s,
{
    if s & 1 == 1 {
        assert(((s >> 0usize) & 1) == 1) by (bit_vector) requires s & 1 == 1;
        0
    } else {
        let h = s >> 1usize;
        assert(h != 0 && h < s) by (bit_vector) requires s != 0, s & 1 != 1, h == s >> 1usize;
        let k = lemma_some_bit(h);
        assert(k < 63 && ((s >> add(k, 1)) & 1) == 1) by (bit_vector) requires h == s >> 1usize, k < 64, ((h >> k) & 1) == 1;
        (k + 1) as usize
    }
}
/// push then pop gives back every bit that fits (the stack is LIFO to depth 63)
proof fn lemma_push_pop(a: StackState, b: StackState, c: StackState)
    requires
        forall|i: int| 0 < i < 64 ==> #[trigger] b.at(i) == a.at(i - 1),
        forall|i: int| 0 <= i < 63 ==> #[trigger] c.at(i) == b.at(i + 1),
    ensures forall|i: int| 0 <= i < 63 ==> c.at(i) == a.at(i),
{ assert forall|i: int| 0 <= i < 63 implies c.at(i) == a.at(i) by { assert(b.at(i + 1) == a.at(i)); } }
proof fn lemma_flag(v: usize, f: usize, o: usize)
    ensures
        f != 0 ==> ((v | f) & f) != 0,
        ((v & !f) & f) == 0,
        (f & o) == 0 ==> ((v | f) & o) == (v & o) && ((v & !f) & o) == (v & o),
{
    assert(f != 0 ==> ((v | f) & f) != 0) by (bit_vector);
    assert(((v & !f) & f) == 0) by (bit_vector);
    assert((f & o) == 0 ==> ((v | f) & o) == (v & o) && ((v & !f) & o) == (v & o)) by (bit_vector);
}
@end
@file src/static_environment.rs all rc
@fn StaticEnvironment::new props=C11
@ensures
  r.cur() == Set::<Seq<char>>::empty(),
  r.outer() == Seq::<Set<Seq<char>>>::empty(),
@fn StaticEnvironment::is_empty props=C11
@ensures
  r == (self.outer().len() == 0),
@fn StaticEnvironment::extend_static props=C11
@ensures
  final(self).cur() == Set::<Seq<char>>::empty(),
  final(self).outer() =~= old(self).outer().push(old(self).cur()),
@fn StaticEnvironment::extend_dynamic props=C11
@ensures
  final(self).cur() == old(self).cur(),
  final(self).outer() =~= old(self).outer().push(old(self).cur()),
@fn StaticEnvironment::unextend props=C11
@requires
  old(self).outer().len() > 0,
@ensures
  final(self).cur() == old(self).outer().last(),
  final(self).outer() =~= old(self).outer().drop_last(),
@fn StaticEnvironment::declare props=C11
@ensures
  final(self).cur() == old(self).cur().insert(name@),
  final(self).outer() =~= old(self).outer(),
@fn StaticEnvironment::is_declared props=C11
@ensures
  r == self.cur().contains(name@),
@fn StaticEnvironment::declare_forward_args props=C11
@ensures
  final(self).cur() == old(self).cur().insert(FORWARD_ARGS@),
  final(self).outer() =~= old(self).outer(),
@fn StaticEnvironment::is_forward_args_declared props=C11
@ensures
  r == self.cur().contains(FORWARD_ARGS@),
@fn StaticEnvironment::declare_anonymous_blockarg props=C11
@ensures
  final(self).cur() == old(self).cur().insert(ANONYMOUS_BLOCKARG@),
  final(self).outer() =~= old(self).outer(),
@fn StaticEnvironment::is_anonymous_blockarg_declared props=C11
@ensures
  r == self.cur().contains(ANONYMOUS_BLOCKARG@),
@file src/variables_stack.rs all rc
@fn VariablesStack::new props=C12
@ensures
  r.fr().len() == 0,
@fn VariablesStack::is_empty props=C12
@ensures
  r == (self.fr().len() == 0),
@fn VariablesStack::push props=C12
@ensures
  final(self).fr() =~= old(self).fr().push(Set::<Seq<char>>::empty()),
@fn VariablesStack::pop props=C12
@ensures
  old(self).fr().len() > 0 ==> final(self).fr() =~= old(self).fr().drop_last(),
  old(self).fr().len() == 0 ==> final(self).fr().len() == 0,
@fn VariablesStack::declare props=C12
@requires
  old(self).fr().len() > 0,
@ensures
  final(self).fr() =~= old(self).fr().drop_last().push(old(self).fr().last().insert(name@)),
@fn VariablesStack::is_declared props=C12
@requires
  self.fr().len() > 0,
@ensures
  r == self.fr().last().contains(name@),
@file src/current_arg_stack.rs all rc
@fn CurrentArgStack::new props=C12
@ensures
  r.stack@.len() == 0,
@fn CurrentArgStack::is_empty props=C12
@ensures
  r == (self.stack@.len() == 0),
@fn CurrentArgStack::push props=C12
@ensures
  final(self).stack@ == old(self).stack@.push(value),
@fn CurrentArgStack::set props=C12
@ensures
  old(self).stack@.len() > 0 ==> final(self).stack@ == old(self).stack@.drop_last().push(value),
  old(self).stack@.len() == 0 ==> final(self).stack@ == seq![value],
@fn CurrentArgStack::pop props=C12
@ensures
  old(self).stack@.len() > 0 ==> final(self).stack@ == old(self).stack@.drop_last(),
  old(self).stack@.len() == 0 ==> final(self).stack@ == old(self).stack@,
@fn CurrentArgStack::top props=C12
@ensures
  r == (if self.stack@.len() > 0 { self.stack@.last() } else { None }),
@file src/max_numparam_stack.rs all rc
@derive StackItem Clone
@skip MaxNumparamStack::inner_clone
@fn MaxNumparamStack::new props=C12
@ensures
  r.stack@.len() == 0,
@fn MaxNumparamStack::is_empty props=C12
@ensures
  r == (self.stack@.len() == 0),
@fn MaxNumparamStack::set props=C12
@requires
  old(self).stack@.len() > 0,
@ensures
  final(self).stack@.len() == old(self).stack@.len(),
  final(self).stack@.drop_last() =~= old(self).stack@.drop_last(),
  final(self).stack@.last().value == value,
  final(self).stack@.last().is_static == old(self).stack@.last().is_static,
@fn MaxNumparamStack::set_has_ordinary_params props=C12
@requires
  old(self).stack@.len() > 0,
@ensures
  final(self).stack@.drop_last() =~= old(self).stack@.drop_last(),
  final(self).stack@.len() == old(self).stack@.len(),
  final(self).stack@.last().value == Self::ORDINARY_PARAMS,
  final(self).stack@.last().is_static == old(self).stack@.last().is_static,
@fn MaxNumparamStack::register props=C12
@requires
  old(self).stack@.len() > 0,
@ensures
  final(self).stack@.drop_last() =~= old(self).stack@.drop_last(),
  final(self).stack@.len() == old(self).stack@.len(),
  final(self).stack@.last().value == (if numparam >= old(self).stack@.last().value { numparam } else { old(self).stack@.last().value }),
  final(self).stack@.last().is_static == old(self).stack@.last().is_static,
@fn MaxNumparamStack::top props=C12
@ensures
  r == (if self.stack@.len() > 0 { self.stack@.last().value } else { i32::MIN }),
@fn MaxNumparamStack::has_ordinary_params props=C12
@ensures
  r == (self.stack@.len() > 0 && self.stack@.last().value == Self::ORDINARY_PARAMS),
@fn MaxNumparamStack::has_numparams props=C12
@ensures
  r == (self.stack@.len() > 0 && self.stack@.last().value > 0),
@fn MaxNumparamStack::push props=C12
@ensures
  final(self).stack@ == old(self).stack@.push(StackItem { value: 0, is_static }),
@fn MaxNumparamStack::pop props=C12
@ensures
  old(self).stack@.len() > 0 ==> final(self).stack@ == old(self).stack@.drop_last(),
  old(self).stack@.len() == 0 ==> final(self).stack@ == old(self).stack@,
@file src/stack_state.rs all
@fn StackState::new props=C12
@ensures
  forall|i: int| 0 <= i < 64 ==> !#[trigger] r.at(i),
@fnstart
  proof { lemma_empty(0); }
@fn StackState::is_empty props=C12
@ensures
  r == (forall|i: int| 0 <= i < 64 ==> !#[trigger] self.at(i)),
@fnstart
  proof {
    lemma_empty(self.stack);

    if forall|i: int| 0 <= i < 64 ==> !#[trigger] self.at(i) {
      assert forall|i: usize| #![trigger self.stack >> i] i < 64 implies ((self.stack >> i) & 1) != 1 by { assert(!self.at(i as int)); }
    }
  }
@fn StackState::push props=C12
@ensures
  final(self).at(0) == bit,
  forall|i: int| 0 < i < 64 ==> #[trigger] final(self).at(i) == old(self).at(i - 1),
@fnstart
  proof {
    lemma_shl(self.stack, 0, (self.stack << 1usize) | 0);
    lemma_shl(self.stack, 1, (self.stack << 1usize) | 1);
    assert(forall|x: usize| #![trigger x >> 0usize] (x >> 0usize) == x) by (bit_vector);
  }
@fn StackState::pop props=C12
@ensures
  forall|i: int| 0 <= i < 63 ==> #[trigger] final(self).at(i) == old(self).at(i + 1),
  !final(self).at(63),
@fnstart
  proof { lemma_shr(self.stack, self.stack >> 1usize); }
@fn StackState::is_active props=C12
@ensures
  r == self.at(0),
@fnstart
  proof { assert(forall|x: usize| #![trigger x >> 0usize] (x >> 0usize) == x) by (bit_vector); }
@file src/context.rs all rc
@derive Context Clone, Copy
@fn SharedContext::new mode=drop
@fn SharedContext::dump props=C12
@ensures
  r == self.value,
@fn SharedContext::is_in_dynamic_block props=C12
@ensures
  r == (self.value.value & Context::IN_BLOCK != 0 || self.value.value & Context::IN_LAMBDA != 0),
@fn SharedContext::is_empty props=C12
@ensures
  r == (self.value.value == 0),
@fn Context::is_empty props=C12
@ensures
  r == (self.value == 0),
@fn Context::in_defined props=C12
@ensures
  r == (self.value & Context::IN_DEFINED != 0),
@fn Context::set_in_defined props=C12
@ensures
  (final(self).value & Context::IN_DEFINED != 0) == value,
  (final(self).value & Context::IN_KWARG) == (old(self).value & Context::IN_KWARG),
  (final(self).value & Context::IN_ARGDEF) == (old(self).value & Context::IN_ARGDEF),
  (final(self).value & Context::IN_DEF) == (old(self).value & Context::IN_DEF),
  (final(self).value & Context::IN_CLASS) == (old(self).value & Context::IN_CLASS),
  (final(self).value & Context::IN_LAMBDA) == (old(self).value & Context::IN_LAMBDA),
  (final(self).value & Context::IN_BLOCK) == (old(self).value & Context::IN_BLOCK),
@fnstart
  proof {
    assert(Context::IN_DEFINED != 0) by (compute);
    lemma_flag(self.value, Context::IN_DEFINED, Context::IN_DEFINED);
    assert(Context::IN_DEFINED & Context::IN_KWARG == 0) by (compute); lemma_flag(self.value, Context::IN_DEFINED, Context::IN_KWARG);
    assert(Context::IN_DEFINED & Context::IN_ARGDEF == 0) by (compute); lemma_flag(self.value, Context::IN_DEFINED, Context::IN_ARGDEF);
    assert(Context::IN_DEFINED & Context::IN_DEF == 0) by (compute); lemma_flag(self.value, Context::IN_DEFINED, Context::IN_DEF);
    assert(Context::IN_DEFINED & Context::IN_CLASS == 0) by (compute); lemma_flag(self.value, Context::IN_DEFINED, Context::IN_CLASS);
    assert(Context::IN_DEFINED & Context::IN_LAMBDA == 0) by (compute); lemma_flag(self.value, Context::IN_DEFINED, Context::IN_LAMBDA);
    assert(Context::IN_DEFINED & Context::IN_BLOCK == 0) by (compute); lemma_flag(self.value, Context::IN_DEFINED, Context::IN_BLOCK);
  }
@fn SharedContext::in_defined props=C12
@ensures
  r == (self.value.value & Context::IN_DEFINED != 0),
@fn SharedContext::set_in_defined props=C12
@ensures
  (final(self).value.value & Context::IN_DEFINED != 0) == value,
  (final(self).value.value & Context::IN_KWARG) == (old(self).value.value & Context::IN_KWARG),
  (final(self).value.value & Context::IN_ARGDEF) == (old(self).value.value & Context::IN_ARGDEF),
  (final(self).value.value & Context::IN_DEF) == (old(self).value.value & Context::IN_DEF),
  (final(self).value.value & Context::IN_CLASS) == (old(self).value.value & Context::IN_CLASS),
  (final(self).value.value & Context::IN_LAMBDA) == (old(self).value.value & Context::IN_LAMBDA),
  (final(self).value.value & Context::IN_BLOCK) == (old(self).value.value & Context::IN_BLOCK),
@fn Context::in_kwarg props=C12
@ensures
  r == (self.value & Context::IN_KWARG != 0),
@fn Context::set_in_kwarg props=C12
@ensures
  (final(self).value & Context::IN_KWARG != 0) == value,
  (final(self).value & Context::IN_DEFINED) == (old(self).value & Context::IN_DEFINED),
  (final(self).value & Context::IN_ARGDEF) == (old(self).value & Context::IN_ARGDEF),
  (final(self).value & Context::IN_DEF) == (old(self).value & Context::IN_DEF),
  (final(self).value & Context::IN_CLASS) == (old(self).value & Context::IN_CLASS),
  (final(self).value & Context::IN_LAMBDA) == (old(self).value & Context::IN_LAMBDA),
  (final(self).value & Context::IN_BLOCK) == (old(self).value & Context::IN_BLOCK),
@fnstart
  proof {
    assert(Context::IN_KWARG != 0) by (compute);
    lemma_flag(self.value, Context::IN_KWARG, Context::IN_KWARG);
    assert(Context::IN_KWARG & Context::IN_DEFINED == 0) by (compute); lemma_flag(self.value, Context::IN_KWARG, Context::IN_DEFINED);
    assert(Context::IN_KWARG & Context::IN_ARGDEF == 0) by (compute); lemma_flag(self.value, Context::IN_KWARG, Context::IN_ARGDEF);
    assert(Context::IN_KWARG & Context::IN_DEF == 0) by (compute); lemma_flag(self.value, Context::IN_KWARG, Context::IN_DEF);
    assert(Context::IN_KWARG & Context::IN_CLASS == 0) by (compute); lemma_flag(self.value, Context::IN_KWARG, Context::IN_CLASS);
    assert(Context::IN_KWARG & Context::IN_LAMBDA == 0) by (compute); lemma_flag(self.value, Context::IN_KWARG, Context::IN_LAMBDA);
    assert(Context::IN_KWARG & Context::IN_BLOCK == 0) by (compute); lemma_flag(self.value, Context::IN_KWARG, Context::IN_BLOCK);
  }
@fn SharedContext::in_kwarg props=C12
@ensures
  r == (self.value.value & Context::IN_KWARG != 0),
@fn SharedContext::set_in_kwarg props=C12
@ensures
  (final(self).value.value & Context::IN_KWARG != 0) == value,
  (final(self).value.value & Context::IN_DEFINED) == (old(self).value.value & Context::IN_DEFINED),
  (final(self).value.value & Context::IN_ARGDEF) == (old(self).value.value & Context::IN_ARGDEF),
  (final(self).value.value & Context::IN_DEF) == (old(self).value.value & Context::IN_DEF),
  (final(self).value.value & Context::IN_CLASS) == (old(self).value.value & Context::IN_CLASS),
  (final(self).value.value & Context::IN_LAMBDA) == (old(self).value.value & Context::IN_LAMBDA),
  (final(self).value.value & Context::IN_BLOCK) == (old(self).value.value & Context::IN_BLOCK),
@fn Context::in_argdef props=C12
@ensures
  r == (self.value & Context::IN_ARGDEF != 0),
@fn Context::set_in_argdef props=C12
@ensures
  (final(self).value & Context::IN_ARGDEF != 0) == value,
  (final(self).value & Context::IN_DEFINED) == (old(self).value & Context::IN_DEFINED),
  (final(self).value & Context::IN_KWARG) == (old(self).value & Context::IN_KWARG),
  (final(self).value & Context::IN_DEF) == (old(self).value & Context::IN_DEF),
  (final(self).value & Context::IN_CLASS) == (old(self).value & Context::IN_CLASS),
  (final(self).value & Context::IN_LAMBDA) == (old(self).value & Context::IN_LAMBDA),
  (final(self).value & Context::IN_BLOCK) == (old(self).value & Context::IN_BLOCK),
@fnstart
  proof {
    assert(Context::IN_ARGDEF != 0) by (compute);
    lemma_flag(self.value, Context::IN_ARGDEF, Context::IN_ARGDEF);
    assert(Context::IN_ARGDEF & Context::IN_DEFINED == 0) by (compute); lemma_flag(self.value, Context::IN_ARGDEF, Context::IN_DEFINED);
    assert(Context::IN_ARGDEF & Context::IN_KWARG == 0) by (compute); lemma_flag(self.value, Context::IN_ARGDEF, Context::IN_KWARG);
    assert(Context::IN_ARGDEF & Context::IN_DEF == 0) by (compute); lemma_flag(self.value, Context::IN_ARGDEF, Context::IN_DEF);
    assert(Context::IN_ARGDEF & Context::IN_CLASS == 0) by (compute); lemma_flag(self.value, Context::IN_ARGDEF, Context::IN_CLASS);
    assert(Context::IN_ARGDEF & Context::IN_LAMBDA == 0) by (compute); lemma_flag(self.value, Context::IN_ARGDEF, Context::IN_LAMBDA);
    assert(Context::IN_ARGDEF & Context::IN_BLOCK == 0) by (compute); lemma_flag(self.value, Context::IN_ARGDEF, Context::IN_BLOCK);
  }
@fn SharedContext::in_argdef props=C12
@ensures
  r == (self.value.value & Context::IN_ARGDEF != 0),
@fn SharedContext::set_in_argdef props=C12
@ensures
  (final(self).value.value & Context::IN_ARGDEF != 0) == value,
  (final(self).value.value & Context::IN_DEFINED) == (old(self).value.value & Context::IN_DEFINED),
  (final(self).value.value & Context::IN_KWARG) == (old(self).value.value & Context::IN_KWARG),
  (final(self).value.value & Context::IN_DEF) == (old(self).value.value & Context::IN_DEF),
  (final(self).value.value & Context::IN_CLASS) == (old(self).value.value & Context::IN_CLASS),
  (final(self).value.value & Context::IN_LAMBDA) == (old(self).value.value & Context::IN_LAMBDA),
  (final(self).value.value & Context::IN_BLOCK) == (old(self).value.value & Context::IN_BLOCK),
@fn Context::in_def props=C12
@ensures
  r == (self.value & Context::IN_DEF != 0),
@fn Context::set_in_def props=C12
@ensures
  (final(self).value & Context::IN_DEF != 0) == value,
  (final(self).value & Context::IN_DEFINED) == (old(self).value & Context::IN_DEFINED),
  (final(self).value & Context::IN_KWARG) == (old(self).value & Context::IN_KWARG),
  (final(self).value & Context::IN_ARGDEF) == (old(self).value & Context::IN_ARGDEF),
  (final(self).value & Context::IN_CLASS) == (old(self).value & Context::IN_CLASS),
  (final(self).value & Context::IN_LAMBDA) == (old(self).value & Context::IN_LAMBDA),
  (final(self).value & Context::IN_BLOCK) == (old(self).value & Context::IN_BLOCK),
@fnstart
  proof {
    assert(Context::IN_DEF != 0) by (compute);
    lemma_flag(self.value, Context::IN_DEF, Context::IN_DEF);
    assert(Context::IN_DEF & Context::IN_DEFINED == 0) by (compute); lemma_flag(self.value, Context::IN_DEF, Context::IN_DEFINED);
    assert(Context::IN_DEF & Context::IN_KWARG == 0) by (compute); lemma_flag(self.value, Context::IN_DEF, Context::IN_KWARG);
    assert(Context::IN_DEF & Context::IN_ARGDEF == 0) by (compute); lemma_flag(self.value, Context::IN_DEF, Context::IN_ARGDEF);
    assert(Context::IN_DEF & Context::IN_CLASS == 0) by (compute); lemma_flag(self.value, Context::IN_DEF, Context::IN_CLASS);
    assert(Context::IN_DEF & Context::IN_LAMBDA == 0) by (compute); lemma_flag(self.value, Context::IN_DEF, Context::IN_LAMBDA);
    assert(Context::IN_DEF & Context::IN_BLOCK == 0) by (compute); lemma_flag(self.value, Context::IN_DEF, Context::IN_BLOCK);
  }
@fn SharedContext::in_def props=C12
@ensures
  r == (self.value.value & Context::IN_DEF != 0),
@fn SharedContext::set_in_def props=C12
@ensures
  (final(self).value.value & Context::IN_DEF != 0) == value,
  (final(self).value.value & Context::IN_DEFINED) == (old(self).value.value & Context::IN_DEFINED),
  (final(self).value.value & Context::IN_KWARG) == (old(self).value.value & Context::IN_KWARG),
  (final(self).value.value & Context::IN_ARGDEF) == (old(self).value.value & Context::IN_ARGDEF),
  (final(self).value.value & Context::IN_CLASS) == (old(self).value.value & Context::IN_CLASS),
  (final(self).value.value & Context::IN_LAMBDA) == (old(self).value.value & Context::IN_LAMBDA),
  (final(self).value.value & Context::IN_BLOCK) == (old(self).value.value & Context::IN_BLOCK),
@fn Context::in_class props=C12
@ensures
  r == (self.value & Context::IN_CLASS != 0),
@fn Context::set_in_class props=C12
@ensures
  (final(self).value & Context::IN_CLASS != 0) == value,
  (final(self).value & Context::IN_DEFINED) == (old(self).value & Context::IN_DEFINED),
  (final(self).value & Context::IN_KWARG) == (old(self).value & Context::IN_KWARG),
  (final(self).value & Context::IN_ARGDEF) == (old(self).value & Context::IN_ARGDEF),
  (final(self).value & Context::IN_DEF) == (old(self).value & Context::IN_DEF),
  (final(self).value & Context::IN_LAMBDA) == (old(self).value & Context::IN_LAMBDA),
  (final(self).value & Context::IN_BLOCK) == (old(self).value & Context::IN_BLOCK),
@fnstart
  proof {
    assert(Context::IN_CLASS != 0) by (compute);
    lemma_flag(self.value, Context::IN_CLASS, Context::IN_CLASS);
    assert(Context::IN_CLASS & Context::IN_DEFINED == 0) by (compute); lemma_flag(self.value, Context::IN_CLASS, Context::IN_DEFINED);
    assert(Context::IN_CLASS & Context::IN_KWARG == 0) by (compute); lemma_flag(self.value, Context::IN_CLASS, Context::IN_KWARG);
    assert(Context::IN_CLASS & Context::IN_ARGDEF == 0) by (compute); lemma_flag(self.value, Context::IN_CLASS, Context::IN_ARGDEF);
    assert(Context::IN_CLASS & Context::IN_DEF == 0) by (compute); lemma_flag(self.value, Context::IN_CLASS, Context::IN_DEF);
    assert(Context::IN_CLASS & Context::IN_LAMBDA == 0) by (compute); lemma_flag(self.value, Context::IN_CLASS, Context::IN_LAMBDA);
    assert(Context::IN_CLASS & Context::IN_BLOCK == 0) by (compute); lemma_flag(self.value, Context::IN_CLASS, Context::IN_BLOCK);
  }
@fn SharedContext::in_class props=C12
@ensures
  r == (self.value.value & Context::IN_CLASS != 0),
@fn SharedContext::set_in_class props=C12
@ensures
  (final(self).value.value & Context::IN_CLASS != 0) == value,
  (final(self).value.value & Context::IN_DEFINED) == (old(self).value.value & Context::IN_DEFINED),
  (final(self).value.value & Context::IN_KWARG) == (old(self).value.value & Context::IN_KWARG),
  (final(self).value.value & Context::IN_ARGDEF) == (old(self).value.value & Context::IN_ARGDEF),
  (final(self).value.value & Context::IN_DEF) == (old(self).value.value & Context::IN_DEF),
  (final(self).value.value & Context::IN_LAMBDA) == (old(self).value.value & Context::IN_LAMBDA),
  (final(self).value.value & Context::IN_BLOCK) == (old(self).value.value & Context::IN_BLOCK),
@fn Context::in_lambda props=C12
@ensures
  r == (self.value & Context::IN_LAMBDA != 0),
@fn Context::set_in_lambda props=C12
@ensures
  (final(self).value & Context::IN_LAMBDA != 0) == value,
  (final(self).value & Context::IN_DEFINED) == (old(self).value & Context::IN_DEFINED),
  (final(self).value & Context::IN_KWARG) == (old(self).value & Context::IN_KWARG),
  (final(self).value & Context::IN_ARGDEF) == (old(self).value & Context::IN_ARGDEF),
  (final(self).value & Context::IN_DEF) == (old(self).value & Context::IN_DEF),
  (final(self).value & Context::IN_CLASS) == (old(self).value & Context::IN_CLASS),
  (final(self).value & Context::IN_BLOCK) == (old(self).value & Context::IN_BLOCK),
@fnstart
  proof {
    assert(Context::IN_LAMBDA != 0) by (compute);
    lemma_flag(self.value, Context::IN_LAMBDA, Context::IN_LAMBDA);
    assert(Context::IN_LAMBDA & Context::IN_DEFINED == 0) by (compute); lemma_flag(self.value, Context::IN_LAMBDA, Context::IN_DEFINED);
    assert(Context::IN_LAMBDA & Context::IN_KWARG == 0) by (compute); lemma_flag(self.value, Context::IN_LAMBDA, Context::IN_KWARG);
    assert(Context::IN_LAMBDA & Context::IN_ARGDEF == 0) by (compute); lemma_flag(self.value, Context::IN_LAMBDA, Context::IN_ARGDEF);
    assert(Context::IN_LAMBDA & Context::IN_DEF == 0) by (compute); lemma_flag(self.value, Context::IN_LAMBDA, Context::IN_DEF);
    assert(Context::IN_LAMBDA & Context::IN_CLASS == 0) by (compute); lemma_flag(self.value, Context::IN_LAMBDA, Context::IN_CLASS);
    assert(Context::IN_LAMBDA & Context::IN_BLOCK == 0) by (compute); lemma_flag(self.value, Context::IN_LAMBDA, Context::IN_BLOCK);
  }
@fn SharedContext::in_lambda props=C12
@ensures
  r == (self.value.value & Context::IN_LAMBDA != 0),
@fn SharedContext::set_in_lambda props=C12
@ensures
  (final(self).value.value & Context::IN_LAMBDA != 0) == value,
  (final(self).value.value & Context::IN_DEFINED) == (old(self).value.value & Context::IN_DEFINED),
  (final(self).value.value & Context::IN_KWARG) == (old(self).value.value & Context::IN_KWARG),
  (final(self).value.value & Context::IN_ARGDEF) == (old(self).value.value & Context::IN_ARGDEF),
  (final(self).value.value & Context::IN_DEF) == (old(self).value.value & Context::IN_DEF),
  (final(self).value.value & Context::IN_CLASS) == (old(self).value.value & Context::IN_CLASS),
  (final(self).value.value & Context::IN_BLOCK) == (old(self).value.value & Context::IN_BLOCK),
@fn Context::in_block props=C12
@ensures
  r == (self.value & Context::IN_BLOCK != 0),
@fn Context::set_in_block props=C12
@ensures
  (final(self).value & Context::IN_BLOCK != 0) == value,
  (final(self).value & Context::IN_DEFINED) == (old(self).value & Context::IN_DEFINED),
  (final(self).value & Context::IN_KWARG) == (old(self).value & Context::IN_KWARG),
  (final(self).value & Context::IN_ARGDEF) == (old(self).value & Context::IN_ARGDEF),
  (final(self).value & Context::IN_DEF) == (old(self).value & Context::IN_DEF),
  (final(self).value & Context::IN_CLASS) == (old(self).value & Context::IN_CLASS),
  (final(self).value & Context::IN_LAMBDA) == (old(self).value & Context::IN_LAMBDA),
@fnstart
  proof {
    assert(Context::IN_BLOCK != 0) by (compute);
    lemma_flag(self.value, Context::IN_BLOCK, Context::IN_BLOCK);
    assert(Context::IN_BLOCK & Context::IN_DEFINED == 0) by (compute); lemma_flag(self.value, Context::IN_BLOCK, Context::IN_DEFINED);
    assert(Context::IN_BLOCK & Context::IN_KWARG == 0) by (compute); lemma_flag(self.value, Context::IN_BLOCK, Context::IN_KWARG);
    assert(Context::IN_BLOCK & Context::IN_ARGDEF == 0) by (compute); lemma_flag(self.value, Context::IN_BLOCK, Context::IN_ARGDEF);
    assert(Context::IN_BLOCK & Context::IN_DEF == 0) by (compute); lemma_flag(self.value, Context::IN_BLOCK, Context::IN_DEF);
    assert(Context::IN_BLOCK & Context::IN_CLASS == 0) by (compute); lemma_flag(self.value, Context::IN_BLOCK, Context::IN_CLASS);
    assert(Context::IN_BLOCK & Context::IN_LAMBDA == 0) by (compute); lemma_flag(self.value, Context::IN_BLOCK, Context::IN_LAMBDA);
  }
@fn SharedContext::in_block props=C12
@ensures
  r == (self.value.value & Context::IN_BLOCK != 0),
@fn SharedContext::set_in_block props=C12
@ensures
  (final(self).value.value & Context::IN_BLOCK != 0) == value,
  (final(self).value.value & Context::IN_DEFINED) == (old(self).value.value & Context::IN_DEFINED),
  (final(self).value.value & Context::IN_KWARG) == (old(self).value.value & Context::IN_KWARG),
  (final(self).value.value & Context::IN_ARGDEF) == (old(self).value.value & Context::IN_ARGDEF),
  (final(self).value.value & Context::IN_DEF) == (old(self).value.value & Context::IN_DEF),
  (final(self).value.value & Context::IN_CLASS) == (old(self).value.value & Context::IN_CLASS),
  (final(self).value.value & Context::IN_LAMBDA) == (old(self).value.value & Context::IN_LAMBDA),
