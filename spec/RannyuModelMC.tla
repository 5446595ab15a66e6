---- MODULE RannyuModelMC ----
EXTENDS RannyuModel
M4 == <<0, 1, 3, 1>>
====
