@props C05,C06
@include common.inc
@import source.inc
@import chars.inc
@import buffer.inc
@include lexer.inc
