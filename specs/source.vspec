@props C01,C02,C03,C04
@include common.inc
@include source.inc
