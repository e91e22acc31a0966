----------------------------- MODULE GenValues -----------------------------
(* Writes the values of the universe, to be replayed into the code. *)
EXTENDS Universe, Json, IOUtils
Cases == SetToSeq(Low) \o SetToSeq(Pairs) \o SetToSeq(Families) \o SetToSeq(Deep)
ASSUME ndJsonSerialize(IOEnv.CASES, Cases)
=============================================================================
