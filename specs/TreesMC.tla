------------------------------ MODULE TreesMC ------------------------------
(* What it means, for the types, that two trees are equal: on all the pairs of low values. *)
EXTENDS Universe, Trees
VARIABLES v, w, s
Init == v \in Low /\ w \in Low /\ s \in FewStrategies
Next == FALSE /\ UNCHANGED <<v, w, s>>
Spec == Init /\ [][Next]_<<v, w, s>>

In(k, xs) == [k |-> k, t |-> "", xs |-> xs, ks |-> <<>>]
NoLimit == [s EXCEPT !.limit = 0]
(* Equal trees have one type ... *)
SameTreeSameType == SameTree(v, w, s) => Infer(v, s) = Infer(w, s)
(* ... so that one of them stands for both within any collection ... *)
OneStandsForBoth ==
  SameTree(v, w, NoLimit) => \A k \in {"list", "iter"} : Infer(In(k, <<v, w>>), NoLimit) = Infer(In(k, <<v>>), NoLimit)
(* ... and the trees that differ with the same type only hide ints behind floats, or which key goes with which value. *)
RECURSIVE HidesNothing(_)
HidesNothing(x) == /\ x.k \notin MapKinds
                   /\ ~(\E i, j \in 1..Len(x.xs) : IsLeafOf(x.xs[i], "float") /\ IsLeafOf(x.xs[j], "int"))
                   /\ \A i \in 1..Len(x.xs) : HidesNothing(x.xs[i])
SameTypeSameTree ==
  HidesNothing(v) /\ HidesNothing(w) /\ Infer(v, s) = Infer(w, s) => SameTree(v, w, s)
=============================================================================
