@file $AST/src/nodes/types/alias.rs
@take Alias
@file $AST/src/nodes/types/and.rs
@take And
@file $AST/src/nodes/types/and_asgn.rs
@take AndAsgn
@file $AST/src/nodes/types/arg.rs
@take Arg
@file $AST/src/nodes/types/args.rs
@take Args
@file $AST/src/nodes/types/array.rs
@take Array
@file $AST/src/nodes/types/array_pattern.rs
@take ArrayPattern
@file $AST/src/nodes/types/array_pattern_with_tail.rs
@take ArrayPatternWithTail
@file $AST/src/nodes/types/back_ref.rs
@take BackRef
@file $AST/src/nodes/types/begin.rs
@take Begin
@file $AST/src/nodes/types/block.rs
@take Block
@file $AST/src/nodes/types/block_pass.rs
@take BlockPass
@file $AST/src/nodes/types/blockarg.rs
@take Blockarg
@file $AST/src/nodes/types/break_.rs
@take Break
@file $AST/src/nodes/types/c_send.rs
@take CSend
@file $AST/src/nodes/types/case.rs
@take Case
@file $AST/src/nodes/types/case_match.rs
@take CaseMatch
@file $AST/src/nodes/types/casgn.rs
@take Casgn
@file $AST/src/nodes/types/cbase.rs
@take Cbase
@file $AST/src/nodes/types/class.rs
@take Class
@file $AST/src/nodes/types/complex.rs
@take Complex
@file $AST/src/nodes/types/const_.rs
@take Const
@file $AST/src/nodes/types/const_pattern.rs
@take ConstPattern
@file $AST/src/nodes/types/cvar.rs
@take Cvar
@file $AST/src/nodes/types/cvasgn.rs
@take Cvasgn
@file $AST/src/nodes/types/def.rs
@take Def
@file $AST/src/nodes/types/defined.rs
@take Defined
@file $AST/src/nodes/types/defs.rs
@take Defs
@file $AST/src/nodes/types/dstr.rs
@take Dstr
@file $AST/src/nodes/types/dsym.rs
@take Dsym
@file $AST/src/nodes/types/e_flip_flop.rs
@take EFlipFlop
@file $AST/src/nodes/types/empty_else.rs
@take EmptyElse
@file $AST/src/nodes/types/encoding.rs
@take Encoding
@file $AST/src/nodes/types/ensure.rs
@take Ensure
@file $AST/src/nodes/types/erange.rs
@take Erange
@file $AST/src/nodes/types/false_.rs
@take False
@file $AST/src/nodes/types/file.rs
@take File
@file $AST/src/nodes/types/find_pattern.rs
@take FindPattern
@file $AST/src/nodes/types/float.rs
@take Float
@file $AST/src/nodes/types/for_.rs
@take For
@file $AST/src/nodes/types/forward_arg.rs
@take ForwardArg
@file $AST/src/nodes/types/forwarded_args.rs
@take ForwardedArgs
@file $AST/src/nodes/types/gvar.rs
@take Gvar
@file $AST/src/nodes/types/gvasgn.rs
@take Gvasgn
@file $AST/src/nodes/types/hash.rs
@take Hash
@file $AST/src/nodes/types/hash_pattern.rs
@take HashPattern
@file $AST/src/nodes/types/heredoc.rs
@take Heredoc
@file $AST/src/nodes/types/i_flip_flop.rs
@take IFlipFlop
@file $AST/src/nodes/types/if_.rs
@take If
@file $AST/src/nodes/types/if_guard.rs
@take IfGuard
@file $AST/src/nodes/types/if_mod.rs
@take IfMod
@file $AST/src/nodes/types/if_ternary.rs
@take IfTernary
@file $AST/src/nodes/types/in_pattern.rs
@take InPattern
@file $AST/src/nodes/types/index.rs
@take Index
@file $AST/src/nodes/types/index_asgn.rs
@take IndexAsgn
@file $AST/src/nodes/types/int.rs
@take Int
@file $AST/src/nodes/types/irange.rs
@take Irange
@file $AST/src/nodes/types/ivar.rs
@take Ivar
@file $AST/src/nodes/types/ivasgn.rs
@take Ivasgn
@file $AST/src/nodes/types/kw_begin.rs
@take KwBegin
@file $AST/src/nodes/types/kwarg.rs
@take Kwarg
@file $AST/src/nodes/types/kwargs.rs
@take Kwargs
@file $AST/src/nodes/types/kwnilarg.rs
@take Kwnilarg
@file $AST/src/nodes/types/kwoptarg.rs
@take Kwoptarg
@file $AST/src/nodes/types/kwrestarg.rs
@take Kwrestarg
@file $AST/src/nodes/types/kwsplat.rs
@take Kwsplat
@file $AST/src/nodes/types/lambda.rs
@take Lambda
@file $AST/src/nodes/types/line.rs
@take Line
@file $AST/src/nodes/types/lvar.rs
@take Lvar
@file $AST/src/nodes/types/lvasgn.rs
@take Lvasgn
@file $AST/src/nodes/types/masgn.rs
@take Masgn
@file $AST/src/nodes/types/match_alt.rs
@take MatchAlt
@file $AST/src/nodes/types/match_as.rs
@take MatchAs
@file $AST/src/nodes/types/match_current_line.rs
@take MatchCurrentLine
@file $AST/src/nodes/types/match_nil_pattern.rs
@take MatchNilPattern
@file $AST/src/nodes/types/match_pattern.rs
@take MatchPattern
@file $AST/src/nodes/types/match_pattern_p.rs
@take MatchPatternP
@file $AST/src/nodes/types/match_rest.rs
@take MatchRest
@file $AST/src/nodes/types/match_var.rs
@take MatchVar
@file $AST/src/nodes/types/match_with_lvasgn.rs
@take MatchWithLvasgn
@file $AST/src/nodes/types/mlhs.rs
@take Mlhs
@file $AST/src/nodes/types/module.rs
@take Module
@file $AST/src/nodes/types/next.rs
@take Next
@file $AST/src/nodes/types/nil.rs
@take Nil
@file $AST/src/nodes/types/nth_ref.rs
@take NthRef
@file $AST/src/nodes/types/numblock.rs
@take Numblock
@file $AST/src/nodes/types/op_asgn.rs
@take OpAsgn
@file $AST/src/nodes/types/optarg.rs
@take Optarg
@file $AST/src/nodes/types/or.rs
@take Or
@file $AST/src/nodes/types/or_asgn.rs
@take OrAsgn
@file $AST/src/nodes/types/pair.rs
@take Pair
@file $AST/src/nodes/types/pin.rs
@take Pin
@file $AST/src/nodes/types/postexe.rs
@take Postexe
@file $AST/src/nodes/types/preexe.rs
@take Preexe
@file $AST/src/nodes/types/procarg0.rs
@take Procarg0
@file $AST/src/nodes/types/rational.rs
@take Rational
@file $AST/src/nodes/types/redo.rs
@take Redo
@file $AST/src/nodes/types/reg_opt.rs
@take RegOpt
@file $AST/src/nodes/types/regexp.rs
@take Regexp
@file $AST/src/nodes/types/rescue.rs
@take Rescue
@file $AST/src/nodes/types/rescue_body.rs
@take RescueBody
@file $AST/src/nodes/types/restarg.rs
@take Restarg
@file $AST/src/nodes/types/retry.rs
@take Retry
@file $AST/src/nodes/types/return_.rs
@take Return
@file $AST/src/nodes/types/s_class.rs
@take SClass
@file $AST/src/nodes/types/self_.rs
@take Self_
@file $AST/src/nodes/types/send.rs
@take Send
@file $AST/src/nodes/types/shadowarg.rs
@take Shadowarg
@file $AST/src/nodes/types/splat.rs
@take Splat
@file $AST/src/nodes/types/str_.rs
@take Str
@file $AST/src/nodes/types/super_.rs
@take Super
@file $AST/src/nodes/types/sym.rs
@take Sym
@file $AST/src/nodes/types/true_.rs
@take True
@file $AST/src/nodes/types/undef.rs
@take Undef
@file $AST/src/nodes/types/unless_guard.rs
@take UnlessGuard
@file $AST/src/nodes/types/until.rs
@take Until
@file $AST/src/nodes/types/until_post.rs
@take UntilPost
@file $AST/src/nodes/types/when.rs
@take When
@file $AST/src/nodes/types/while_.rs
@take While
@file $AST/src/nodes/types/while_post.rs
@take WhilePost
@file $AST/src/nodes/types/x_heredoc.rs
@take XHeredoc
@file $AST/src/nodes/types/xstr.rs
@take Xstr
@file $AST/src/nodes/types/yield_.rs
@take Yield
@file $AST/src/nodes/types/z_super.rs
@take ZSuper
@file $AST/src/nodes/node_enum.rs
@take Node
