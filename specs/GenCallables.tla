---------------------------- MODULE GenCallables ----------------------------
(* Every shape of a callable with few parameters. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, IOUtils, Json
Kinds == {"def", "async", "wrapped", "static", "rawstatic", "unbound", "method", "classm", "lambda", "builtin", "rawclassm", "nosource"}
Shapes == [kind : Kinds, po : 0..2, pk : 0..2, va : BOOLEAN, ko : 0..2, vk : BOOLEAN, dflt : 0..2, ret : BOOLEAN, returns : BOOLEAN]
Sensible(s) == /\ s.dflt <= s.po + s.pk
               /\ s.kind \in {"builtin"} => s.po + s.pk + s.ko = 0 /\ ~s.va /\ ~s.vk /\ ~s.ret /\ ~s.returns
               /\ s.kind = "lambda" => ~s.ret /\ s.returns
VARIABLE x
Init == x = 0
Next == x = 0 /\ x' = 1 /\ ndJsonSerialize(IOEnv.CASES, SetToSeq({s \in Shapes : Sensible(s)}))
Spec == Init /\ [][Next]_x
=============================================================================
