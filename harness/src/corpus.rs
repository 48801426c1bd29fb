//! Seed programs (valid and broken Ruby) used as bases for mutation.
pub fn all() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = TEXT.iter().map(|s| s.as_bytes().to_vec()).collect();
    v.push(b"# encoding: koi8-r\n\xff = 42\n".to_vec());
    v.push(b"\xef\xbb\xbf# encoding: utf-8\nputs 1\n".to_vec());
    v.push(b"\xef\xbb\xbfputs 1\n__END__\nx".to_vec());
    v.push(b"\"\xff\xfe\"\n'\xc3'\n".to_vec());
    v.push(b"a\r\nb\r\n<<A\r\nx\r\nA\r\n".to_vec());
    v
}
const TEXT: &[&str] = &[
    "", "\n", "a", "a\n", "1 + 2\n", "foo bar, baz\n", "def m(a, b = 1, *c, d:, e: 2, **f, &g)\n  a + b\nend\n",
    "class A < B\n  attr_reader :x\n  def initialize; @x = 1; @@y = 2; $z = 3; end\nend\n",
    "module M\n  X = 1\n  Y ||= 2\nend\n",
    "[1, 2, 3].each do |x|\n  puts x\nend\n", "foo { |a, (b, c)| a }\n", "-> (a, b = 1) { a }\n", "->(x) do x end\n", "foo.map { _1 + _2 }\n",
    "if a then b elsif c then d else e end\n", "unless a; b; end\n", "while a do b end\n", "until a\n b\nend\n", "begin; a; rescue E => e; b; else; c; ensure; d; end\n",
    "case a\nwhen 1, 2 then 3\nelse 4\nend\n", "case a\nin {b: 1, **rest} then 1\nin [1, *x, 2]\nin ^y\nin A | B => z\nend\n",
    "x = <<A\nfoo\nbar\nA\n", "x = <<~A\n  foo\n    bar\n  baz\nA\n", "x = <<~A\n\tfoo\n        bar\n  #{baz} q\n\n  z\\\n  y\nA\n", "foo(<<A, <<B)\na\nA\nb\nB\n", "<<~'A'\n  a\\nb\n   c\nA\n", "<<-A\n  a\n  A\n", "<<`A`\nls\nA\n", "<<\"A B\"\nx #{<<C} y\nc\nC\nA B\n", "<<A\nx\n", "<<~A\n  x#{y}\n  z\n",
    "%w[a b c]\n", "%W[a#{b} c\\n]\n", "%i[a b]\n", "%I[a #{b}]\n", "%q(a (b) c)\n", "%Q{a #{b} {c}}\n", "%r{a/b}imx\n", "%x(ls)\n", "%s(a)\n", "%(x)\n", "%w(a\\ b\nc)\n",
    "\"a#{b}c\"\n", "\"a\\n\\t\\u00e9\\u{1F600 61}\\x41\\101\\M-a\\C-b\\M-\\C-c\\cd\\e\\s\"\n", "'a\\'b\\\\c\\d'\n", "`ls #{x}`\n", "\"#@a #@@b #$c\"\n", "\"a\" \"b\" 'c'\n", ":\"a#{b}\"\n", ":'a b'\n", "{\"a\": 1, 'b': 2, c: 3, :d => 4}\n", "\"a\\\nb\"\n",
    "/a#{b}[c]/mix\n", "/\\u{61}\\/\\M-a\\cB/\n", "a =~ /(?<x>b)/\n", "?a\n", "?\\n\n", "?\\u0041 + ?é\n", "a ? b : c\n", "a ?b :c\n", "x ? 1:2\n",
    "0x1F + 0b101 + 0o17 + 017 + 0d9 + 1_000\n", "1.5 + 1e5 + 1.5e-3 + 2r + 3i + 4ri + 1.5r + 1e2i\n", "-1 ** 2\n", "+1\n", "-0.0\n", "1..2\n", "1...\n", "(1..)\n", "08\n", "0x\n", "1__0\n", "1_\n", "1.e5\n", "0b2\n",
    "$1 + $~ + $-w + $_ + $_a + $& + $`\n", "@a; @@b; @1; @@2; $\n", "alias a b\nalias $a $b\nundef c, d\n", "def self.+(o) = o\n", "def a=(x); end\n", "def ==(o); end\n", "def `(x); end\n", "a.b&.c::D\n", "::A::B\n", "a&.b += 1\n", "a[1] ||= 2\n", "a, (b, *c), d = 1, *e\n", "not a and b or c\n", "!a && b || c\n", "a <=> b === c\n", "a <<b\n", "a << b\n", "a *b, &c\n", "a -b\n", "a [1]\n", "a (1)\n", "a %w[b]\n", "a /b/\n", "return if a\n", "yield 1, *a, b: 2\n", "super; super(1)\n", "defined?(a) && defined? b\n", "BEGIN { a }\nEND { b }\n", "__FILE__; __LINE__; __ENCODING__\n", "foo\n  .bar\n  # c\n  &.baz\n", "foo(...)\n", "def f(...) = g(...)\n", "def f(&) = g(&)\n", "f a: 1, **b do end\n", "f(a:, b:)\n", "a => {b:}\n", "1 in Integer\n", "for a, b in c do d end\n", "redo; retry; next 1; break 2\n",
    "# c\na # d\n# e", "=begin\nfoo\n=end\na\n", "=begin\nfoo\n", "a\n=begin x\n=end y\nb\n", "#!/usr/bin/env ruby\n# encoding: utf-8\na\n", "# -*- coding: utf-8; frozen-string-literal: true -*-\na\n", "# frozen_string_literal: true\n# warn_indent: false\n# shareable_constant_value: literal\n", "# vim: set fileencoding=utf-8 :\n", "# encoding: ascii-8bit\n\"\\xff\"\n", "# encoding: \"utf-8\"\n", "a\n__END__\nb c \"\n", "__END__", "a\\\nb\n", "a;;b\n", "é = 1; é\n", "日本 = ñ\n", "class É; end\n", "a\0b\n", "a\x04b", "a\x1ab", "a\rb\n", "(\n", "[1,\n", "\"abc", "'abc", "%w[a", "/abc", "`a", "\"#{", "\"#{\"", "\"\\u{110000}\"\n", "\"\\u12\"", "\"\\xg\"", "\"\\M-", "\"\\C-\\M-", "?\\u{41 42}\n", "\\", "\\x\n", "%", "%=", "?", ":", ":\"", "@", "@@", "$", "&.", "<<", "<<~", "<<'A", "def ", "class << self; end\n", "a = b = c\n", "a rescue b\n", "p((1), 2)\n", "p -> { }, 1\n", "-> a { }\n", "a do |;b| end\n", "{|a| }\n", "while a do; b do end end\n", "m 1 do end\n", "m(1) { }\n", "foo ::A\n", "foo::a\n", "foo.()\n", "foo.\n bar\n", "a b c d\n", "a ? [b] : {c: 1}\n", "a ?x:y\n", "x ? y::z : w\n", "p ?\\C-a, ?\\M-\\C-b\n", "puts [1, 2] [0]\n", "if a then <<A end\nx\nA\n", "{a: <<A, b: 1}\nq\nA\n", "m <<A.b { <<B }\na\nA\nb\nB\n", "\"#{<<A}\n\"\nx\nA\n", "%w[\n a\n  b\n]\n", "def m; yield; ensure; end\n", "a&&=1;b||=2;c**=3;d<<=4;e>>=5\n", "a&b|c^~d\n", "a!=b!~c\n", "p(*a, **b, &c)\n", "_1\n", "proc { |a, | a }\n", "a = *b, c\n", "*a = 1\n", "@a, $b, C, d.e, f[0] = g\n", "private def x = 1\n", "def x() = puts \"a\"\n", "a in [x, y] and b\n", "case [0]; in [Integer => a, String] if a; end\n", "case 1; in ..5; in 1.. ; in nil; in {a: nil, **nil}; end\n",
];
