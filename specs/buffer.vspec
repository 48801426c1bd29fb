@props C05,C06,C14
@include common.inc
@include source.inc
@include chars.inc
@include buffer.inc
