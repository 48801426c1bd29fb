@props C13
@include common.inc
@import source.inc
@import chars.inc
@include nodes.inc
@include dedent.inc
