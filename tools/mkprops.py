#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the text is reviewable)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "The line index of an input partitions its bytes exactly",
  "After any byte array is loaded, the recorded lines are non-overlapping, adjacent, in order, start at 0 and end at the length of the input; every line except the last ends right after a newline byte and contains no other newline, and only the last one is marked as ending with EOF. The bytes themselves are stored unchanged, whatever was loaded before.",
  ["inputs", "histories"], "every byte array, loaded into a fresh or already used input",
  "Tests look at a couple of hand-written sources; an off-by-one that only shows for an empty last line, CRLF or a NUL byte passes them.",
  ["src/source/decoded_input.rs", "src/source/source_line.rs", "src/source/input.rs"],
  [("DecodedInput::update_bytes", "src/source/decoded_input.rs"), ("Input::update_bytes", "src/source/input.rs")],
  [("DecodedInput.lines", "line table used by the lexer, by line/column lookups and by error rendering")], ["ParserResult.input.lines", "ParserResult.input.bytes"])
p("C02", "Byte offset to line/column mapping is exact, total and injective",
  "For every offset from 0 to the length of the input (inclusive), the reported zero-based line and column are those of the line that contains it, so that line start plus column is the offset again; two different offsets never map to the same pair. Every other offset gives no result.",
  ["inputs"], "every byte array and every offset, including huge ones",
  "Unit tests check a few offsets of one text; boundaries (end of input, offset of a newline, empty trailing line, out of range) are a universally quantified statement.",
  ["src/source/decoded_input.rs", "src/loc_ext.rs", "src/source/source_line.rs"],
  [("DecodedInput::line_col_for_pos", "src/source/decoded_input.rs"), ("Input::line_col_for_pos", "src/source/input.rs"), ("LocExt::begin_line_col", "src/loc_ext.rs")])
p("C03", "Locations give back exactly the source text they cover",
  "The source of a location is the (lossily decoded) bytes from its begin to its end when begin <= end <= input length, and nothing otherwise. Expanding a location to its line gives the number of the line that contains its begin and the range of that line without the line terminator.",
  ["inputs"], "every byte array and every pair of offsets, including reversed and out-of-range ones",
  "Tests call it with in-range locations only; out-of-range, reversed, empty and last-line cases must not panic or return neighbouring bytes.",
  ["src/loc_ext.rs", "src/source/decoded_input.rs", "src/source/source_line.rs"],
  [("LocExt::source", "src/loc_ext.rs"), ("LocExt::expand_to_line", "src/loc_ext.rs"), ("DecodedInput::substr_at", "src/source/decoded_input.rs"), ("SourceLine::line_end", "src/source/source_line.rs")])
p("C04", "Source encoding is dispatched correctly and never loses the input",
  "UTF-8, ASCII-8BIT and BINARY (in any letter case) are accepted as is, without calling the decoder; every other encoding calls the user's decoder with exactly that name and the whole input, and the input becomes exactly what it returned, with a line index to match. Without a decoder, or when it fails, the error is reported and the input keeps its bytes.",
  ["inputs", "configurations"], "every encoding name, every input, with no decoder, a succeeding and a failing decoder (also one that changes the length of lines)",
  "One doc-test exercises one decoder; letter case, failing decoders, and length-changing decoders are not reached.",
  ["src/source/decoder.rs", "src/source/input.rs", "src/source/buffer.rs", "src/lexer/parse_magic_comment.rs"],
  [("decode_input", "src/source/decoder.rs"), ("Input::set_encoding", "src/source/input.rs"), ("Buffer::set_encoding", "src/source/buffer.rs"), ("Lexer::magic_comment", "src/lexer/parse_magic_comment.rs")],
  None, ["ParserResult.input", "ParserResult.diagnostics"])
p("C05", "Lexing never panics",
  "Reading tokens from any byte sequence (valid Ruby or not, valid UTF-8 or not) below 256 MB, from any lexer state the grammar can put it in and without a custom decoder, never indexes out of bounds, overflows, unwraps a missing value or hits an unreachable branch in the input, buffer and tokenizing code. Malformed input is reported as diagnostics or an end-of-input token instead.",
  ["inputs", "histories"], "every byte array and every sequence of lexer calls and parser-driven state changes",
  "Tests feed well-formed snippets; panics sit in truncated literals, odd terminators and bytes no test contains.",
  ["src/lexer/*.rs", "src/source/buffer.rs", "src/token_buf.rs", "src/maybe_byte.rs"],
  [("Lexer::parser_yylex", "src/lexer/main.rs"), ("Buffer::nextc / nextline / pushback", "src/source/buffer.rs"), ("Lexer::here_document", "src/lexer/parse_heredoc.rs"), ("Lexer::tokadd_string", "src/lexer/parse_string.rs")],
  [("Buffer.{pbeg,pcur,pend,ptok}", "cursor into the current line"), ("Lexer.strterm", "literal being read")])
p("C06", "Reported source ranges stay inside the input",
  "Without a custom decoder, every token, comment, magic comment and diagnostic produced by the lexer has a location with begin <= end <= length of the input that is returned with it.",
  ["inputs", "histories"], "every byte array, terminated or not, with any sequence of lexer calls",
  "Tests compare locations of well-formed snippets; truncated literals, heredocs at the end of file, and multi-line tokens are where ranges go wrong.",
  ["src/lexer/*.rs", "src/source/buffer.rs"],
  [("Lexer::yylex", "src/lexer/main.rs"), ("Lexer::loc / current_loc / yyerror0 / yyerror1 / warn / compile_error", "src/lexer/main.rs"), ("Lexer::here_document_restore", "src/lexer/parse_heredoc.rs")],
  None, ["ParserResult.tokens", "ParserResult.diagnostics", "ParserResult.comments", "ParserResult.magic_comments"])
p("C07", "Escape sequences decode to exactly the bytes Ruby defines",
  "In an interpolating literal every escape sequence contributes exactly the bytes Ruby gives it (letters, octal, hex, \\u and \\u{} as UTF-8, control and meta combinations, line continuation, any other character as itself); in a non-interpolating one only the escaped delimiter and backslash are rewritten (in a word list also escaped white space), every other byte is kept. (Regular expressions keep their escapes as written and are not covered.)",
  ["inputs"], "every string body over every escape form, in any order and any nesting of control/meta",
  "Tests cover about a dozen escapes; numeric ranges, digit-count boundaries and combinations are not enumerated.",
  ["src/lexer/parse_string.rs", "src/lexer/parse_qmark.rs", "src/lexer/tokadd.rs"],
  [("Lexer::read_escape", "src/lexer/parse_string.rs"), ("Lexer::tokadd_string", "src/lexer/parse_string.rs"), ("Lexer::scan_hex / scan_oct", "src/lexer/parse_string.rs"), ("Lexer::tokadd_utf8 / tokadd_codepoint", "src/lexer/parse_string.rs")])
p("C08", "Numeric tokens carry the exact source text and the right kind",
  "Whenever a numeric literal is lexed without an error, the value of its token is byte for byte the source text of its location, and its kind (integer, float, rational, imaginary) is the one its text denotes. A literal never swallows characters that do not belong to it.",
  ["inputs"], "every input that contains a numeric literal, with any radix, separators, exponent and suffix, followed by anything",
  "Tests list some 40 literals; combinations of sign, leading zero, separators, exponent and suffix at end of input are not covered (three were wrong).",
  ["src/lexer/parse_numeric.rs"],
  [("Lexer::parse_numeric", "src/lexer/parse_numeric.rs"), ("Lexer::parse_octal", "src/lexer/parse_numeric.rs"), ("Lexer::number_literal_suffix", "src/lexer/parse_numeric.rs"), ("Lexer::set_integer_literal / set_number_literal", "src/lexer/parse_numeric.rs")])
p("C09", "Names are tokenized verbatim and completely",
  "When no error is reported, identifiers, constants, method names with ! ? =, labels, instance, class and global variables and numbered references are returned with exactly the characters of the source (without the colon for labels), and a name that does not end in ! ? or = (and is not a numbered or punctuation global) ends only where no further identifier character follows.",
  ["inputs"], "every name made of ASCII and multi-byte identifier characters, in every position",
  "Tests use short ASCII names.",
  ["src/lexer/parse_ident.rs", "src/lexer/parse_gvar.rs", "src/lexer/parse_atmark.rs", "src/lexer/main.rs", "src/token_buf.rs"],
  [("Lexer::parse_ident", "src/lexer/parse_ident.rs"), ("Lexer::parse_gvar", "src/lexer/parse_gvar.rs"), ("Lexer::parse_atmark", "src/lexer/parse_atmark.rs"), ("Lexer::tokadd_ident / tokadd_mbchar", "src/lexer/main.rs")])
p("C10", "Exactly Ruby's reserved words are recognised",
  "A byte string is recognised as a reserved word if and only if it is one of Ruby's 41 keywords, and then with that keyword's own token kinds (plain and modifier) and following lexer state.",
  ["inputs"], "every byte string",
  "Tests parse programs that use some keywords; the negative half (no other string matches) ranges over all byte strings.",
  ["src/reserved_words/list.rs", "src/reserved_words/mod.rs", "codegen/rust/reserved_words.rs"],
  [("reserved_word", "src/reserved_words/mod.rs"), ("RESERVED_WORDS", "src/reserved_words/list.rs")])
p("C11", "Local variable scopes behave as a stack of sets",
  "After any balanced use of the static environment, a name is reported as declared exactly when it was declared in the current scope, or in an enclosing scope that the current one was dynamically opened from and before it was opened; leaving a scope restores precisely the names that were visible before entering it. Asking never declares anything.",
  ["histories"], "every sequence of declare / open static / open dynamic / close / query operations",
  "Four unit tests use depth one and two names.",
  ["src/static_environment.rs"],
  [("StaticEnvironment::{declare,is_declared,extend_static,extend_dynamic,unextend}", "src/static_environment.rs")],
  [("variables, stack", "current set and saved sets")])
p("C12", "Parser-driving stacks and context flags are exact",
  "The condition and command-argument stacks return bits in last-in first-out order (64 deep), the variable, current-argument and numbered-parameter stacks answer for their top element only and restore it after a pop, and each parser context flag can be set, cleared and read without affecting any other.",
  ["histories"], "every sequence of operations on each of the structures",
  "One unit test sets two flags; orders and depths are unbounded.",
  ["src/stack_state.rs", "src/context.rs", "src/variables_stack.rs", "src/current_arg_stack.rs", "src/max_numparam_stack.rs"],
  [("StackState", "src/stack_state.rs"), ("Context / SharedContext", "src/context.rs"), ("VariablesStack", "src/variables_stack.rs"), ("CurrentArgStack", "src/current_arg_stack.rs"), ("MaxNumparamStack", "src/max_numparam_stack.rs")])
p("C13", "Squiggly heredocs remove exactly the common indentation",
  "If some line of a squiggly heredoc is not blank, then from the start of each of its lines exactly the leading spaces and tabs that fit into the smallest indentation of its non-blank lines are removed (tabs advance to multiples of 8, and a tab that would overshoot is kept); a heredoc of blank lines only loses all of its leading spaces and tabs; everything else, including text that follows an interpolation on the same line, is kept byte for byte. (A line that a backslash continues onto the next counts as two lines, each with an indentation of its own to lose; form feeds and other bytes are not indentation.)",
  ["inputs"], "every heredoc body: any mix of spaces, tabs, blank lines, interpolation and line continuations",
  "Tests contain a handful of bodies; mixes of tabs and spaces and text after interpolation were wrong.",
  ["src/builder.rs", "src/lexer/parse_heredoc.rs", "src/lexer/parse_string.rs"],
  [("Builder::dedent_string", "src/builder.rs"), ("Builder::heredoc_dedent", "src/builder.rs"), ("Lexer::update_heredoc_indent", "src/lexer/parse_heredoc.rs")])
p("C14", "Heredocs end at, and only at, their terminator line",
  "A heredoc body ends at the first line that consists of exactly its identifier (after leading spaces, tabs, form feeds or carriage returns for the - and ~ forms) and an optional line terminator (LF or CRLF), and at no other line; the body is the text in between, with CRLF line ends read as LF, and lexing then continues right after the opening identifier on its line and, later, right after the terminator line. (In a heredoc that interpolates, a line that a backslash at the end of the previous one continues is text of that line, never the terminator. An empty identifier in a CRLF file is not covered.)",
  ["inputs"], "every identifier, quoting and body, CRLF or LF, with or without a final newline, after a byte order mark",
  "Tests use matching terminators with LF; near-misses (prefix, suffix, trailing blanks, carriage return, end of file) are unbounded.",
  ["src/source/buffer.rs", "src/lexer/parse_heredoc.rs"],
  [("Buffer::is_whole_match", "src/source/buffer.rs"), ("Lexer::here_document", "src/lexer/parse_heredoc.rs"), ("Lexer::heredoc_identifier", "src/lexer/parse_heredoc.rs"), ("Lexer::heredoc_restore", "src/lexer/parse_heredoc.rs")])
p("C15", "Comments are collected completely, with exact ranges and kinds",
  "Every line comment and every =begin/=end block outside of literals is recorded exactly once and in order; a line comment covers everything from # through the newline that ends its line, a block comment covers everything from =begin through the newline of its =end line (an unterminated block is an error, not a comment), and the kind of a comment is inline exactly when its text starts with # and document exactly when it starts with =begin.",
  ["inputs"], "every input with comments in any position, LF or CRLF, terminated or not",
  "Tests check a few files.",
  ["src/lexer/main.rs", "src/source/comment.rs", "src/source/buffer.rs"],
  [("Lexer::parser_yylex", "src/lexer/main.rs"), ("Comment::new", "src/source/comment.rs"), ("Buffer::is_word_match", "src/source/buffer.rs")],
  None, ["ParserResult.comments"])
p("C16", "Lexer state predicates and updates are exact set operations",
  "For every lexer state and every mask of states, the some/all/exact tests answer the corresponding set relation on the 13 state bits, each composite test (argument, beginning, end, label, space-argument positions) equals its defining combination, and setting a state replaces it completely.",
  ["inputs", "configurations"], "every value of the state, of the mask and of the boolean arguments",
  "Tests never call the predicates directly; a wrong mask only shows for programs that reach that state.",
  ["src/lex_state.rs"],
  [("LexState", "src/lex_state.rs")])
p("C17", "Byte classification and the token buffer are exact",
  "Each character class used by the lexer (space, digit, hex digit, letter, alphanumeric, ASCII, word) holds for exactly the bytes it names and never for end of input, comparisons with a byte are exact, and the token buffer holds exactly the bytes appended to it, in order, since it was last emptied.",
  ["inputs", "histories"], "every byte, end of input, and every sequence of buffer operations",
  "The classes are only exercised through whole programs.",
  ["src/maybe_byte.rs", "src/token_buf.rs", "src/lexer/tokadd.rs"],
  [("MaybeByte", "src/maybe_byte.rs"), ("TokenBuf", "src/token_buf.rs"), ("TokAdd", "src/lexer/tokadd.rs")])
p("C18", "Parsing accepts exactly Ruby's grammar and terminates without panicking",
  "For every input the parser terminates, never panics, and accepts it exactly when the reference Ruby implementation does.",
  ["inputs"], "every byte array", "Conformance is a statement about all programs against an external implementation.",
  ["src/parser/parse.rs", "src/builder.rs"], [("Parser::do_parse", "src/parser/parse.rs"), ("Builder", "src/builder.rs")])
p("C19", "Syntax tree locations nest and cover their tokens",
  "Every node's expression range contains the ranges of its children and of its own keyword and operator tokens.",
  ["inputs"], "every input that parses", "Tests check locations of one sample per node type.",
  ["src/builder.rs"], [("Builder", "src/builder.rs")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
