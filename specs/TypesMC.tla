------------------------------ MODULE TypesMC ------------------------------
(* The reference inference has the properties that are claimed of it, on every value of the universe. *)
EXTENDS Universe, IOUtils, Functions
VARIABLES v, s
Vals == CASE IOEnv.FAMILY = "low" -> Low [] IOEnv.FAMILY = "pairs" -> Pairs
          [] IOEnv.FAMILY = "families" -> Families [] IOEnv.FAMILY = "deep" -> Deep
Strs == IF IOEnv.STRATS = "all" THEN StrategySet ELSE FewStrategies
Init == v \in Vals /\ s \in Strs
Next == FALSE /\ UNCHANGED <<v, s>>
Spec == Init /\ [][Next]_<<v, s>>

T == Infer(v, s)
NoLimit == [s EXCEPT !.limit = 0]
Reverse2(w) == [w EXCEPT !.xs = Reverse(w.xs), !.ks = Reverse(w.ks)]
Twice(w) == [w EXCEPT !.xs = w.xs \o w.xs]
Sequences1 == {"list", "set", "frozenset", "iter"}

Soundness == Has(Trunc(v, s), T)
Tightness == Tight(Trunc(v, s), T)
LimitIsTruncation == T = Infer(Trunc(v, s), NoLimit)
OrderDoesNotMatter ==
  /\ v.k \in Sequences1 \cup MapKinds => Infer(v, NoLimit) = Infer(Reverse2(v), NoLimit)
  /\ v.k = "list" => Infer(v, NoLimit) = Infer(Twice(v), NoLimit)
StyleIsOnlyStyle ==
  Infer(v, [s EXCEPT !.list = "Sequence", !.ro = TRUE]) = Restyle(T, [s EXCEPT !.list = "Sequence", !.ro = TRUE])
(* what is merged at a threshold is merged at every lower one *)
SumOf(q) == FoldSeq(LAMBDA x, acc : x + acc, 0, q)
RECURSIVE NTds(_)
NTds(t) == CASE t.k = "union" -> SumOf([i \in 1..Cardinality(t.ms) |-> NTds(SetToSeq(t.ms)[i])])
             [] t.k = "td" -> 1
             [] OTHER -> SumOf([i \in 1..Len(t.as) |-> NTds(t.as[i])])
MergingIsMonotone ==
  v.k = "list" => \A lo \in {1, 33, 50, 67} : lo <= s.thr =>
     LET a == Infer(v, [NoLimit EXCEPT !.thr = lo])
         b == Infer(v, [NoLimit EXCEPT !.thr = s.thr])
     IN (\A i \in 1..Len(v.xs) : v.xs[i].k # "list") => NTds(a) <= NTds(b)
=============================================================================
