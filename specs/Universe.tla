------------------------------ MODULE Universe ------------------------------
(***************************************************************************)
(* Every value up to a bound, by family.                                   *)
(***************************************************************************)
EXTENDS Types

MkV(k, t, xs, ks) == [k |-> k, t |-> t, xs |-> xs, ks |-> ks]
VLeaf(t) == MkV("leaf", t, <<>>, <<>>)
VNone == MkV("none", "", <<>>, <<>>)
SKey(s) == [t |-> "str", s |-> s]
TKey(t) == [t |-> t, s |-> ""]
VDict(ks, xs) == MkV("dict", "", xs, ks)
Seqs(k, S, n) == {MkV(k, "", xs, <<>>) : xs \in UNION {[1..m -> S] : m \in 0..n}}

VInt == VLeaf("int")
VFlt == VLeaf("float")
VStr == VLeaf("str")
VNum == {VInt, VFlt}
Leaves == {VInt, VFlt, VStr, VNone}

(* dictionaries with at most two of the keys *)
StrDicts(names, S) ==
  {VDict(<<>>, <<>>)} \cup
  {VDict(<<SKey(names[i])>>, <<x>>) : i \in 1..Len(names), x \in S} \cup
  {VDict(<<SKey(names[p[1]]), SKey(names[p[2]])>>, <<x, y>>) :
     p \in {q \in (1..Len(names)) \X (1..Len(names)) : q[1] < q[2]}, x \in S, y \in S}

(* values of height at most one *)
Low ==
  Leaves
  \cup Seqs("list", {VInt, VFlt, VStr}, 2) \cup Seqs("tuple", {VInt, VFlt}, 2)
  \cup Seqs("set", {VInt, VStr}, 2) \cup Seqs("frozenset", {VInt}, 1)
  \cup StrDicts(<<"a", "b">>, {VInt, VFlt})
  \cup {VDict(<<TKey("int")>>, <<x>>) : x \in {VInt, VStr}}
  \cup {VDict(<<TKey("int"), TKey("float")>>, <<x, y>>) : x \in VNum, y \in VNum}
  \cup {VDict(<<SKey("a"), TKey("None")>>, <<VInt, VStr>>)}
  \cup {MkV("mproxy", "", <<VInt>>, <<SKey("a")>>), MkV("mproxy", "", <<>>, <<>>)}
Unhash(v) == v.k \in {"list", "set", "dict", "mproxy"}

(* pairs of low values within every container *)
Pairs == {MkV(k, "", xs, <<>>) : k \in {"list", "tuple"}, xs \in [1..2 -> Low]}
         \cup {VDict(<<SKey("a"), SKey("b")>>, xs) : xs \in [1..2 -> Low]}
         \cup {VDict(<<TKey("int"), TKey("str")>>, xs) : xs \in [1..2 -> Low \cap {v \in Low : v.k # "none"}]}
         \cup {MkV("mproxy", "", xs, <<SKey("a"), TKey("int")>>) : xs \in [1..2 -> {VInt, VFlt, VNone} \cup Seqs("list", VNum, 2)]}

(* families of dictionaries: what merging is about *)
Small == StrDicts(<<"a", "b">>, {VInt, VFlt, VStr})
Narrow == StrDicts(<<"a", "b", "c">>, {VInt}) \cup
          {VDict(<<SKey("a"), SKey("b"), SKey("c")>>, <<VInt, x, y>>) : x \in VNum, y \in {VInt, VStr}}
Nested == {VDict(<<SKey("a")>>, <<x>>) : x \in Seqs("list", VNum, 2) \cup StrDicts(<<"b">>, {VInt, VFlt}) \cup {VNone, VInt}}
          \cup {VDict(<<SKey("a"), SKey("b")>>, <<x, VInt>>) : x \in Seqs("list", VNum, 1) \cup StrDicts(<<"c">>, {VInt})}
Families == {MkV(k, "", xs, <<>>) : k \in {"list", "tuple"}, xs \in [1..2 -> Small] \cup [1..2 -> Nested]}
            \cup {MkV("list", "", xs, <<>>) : xs \in [1..3 -> Narrow]}
            \cup {MkV("tuple", "", <<VStr>> \o xs, <<>>) : xs \in [1..2 -> Narrow]}
(* lists of families: what is compared are the types that result from merging *)
Deep == {MkV("list", "", <<MkV("list", "", xs, <<>>), MkV("list", "", ys, <<>>)>>, <<>>)
           : xs \in UNION {[1..n -> StrDicts(<<"a", "b">>, {VInt})] : n \in 1..2},
             ys \in UNION {[1..n -> StrDicts(<<"a", "b">>, {VInt})] : n \in 1..2}}

All == Low \cup Pairs \cup Families \cup Deep

StrategySet ==
  {[list |-> l, tuple |-> t, dict |-> d, ro |-> ro, min |-> 1, limit |-> lim, thr |-> thr] :
     l \in {"list", "Sequence"}, t \in {"fixed", "any size"}, d \in {"TypedDict", "Mapping", "dict"},
     ro \in BOOLEAN, lim \in {0, 1, 2}, thr \in {1, 33, 50, 67, 100}}
(* a covering choice, for exhaustive runs over values *)
Default == [list |-> "list", tuple |-> "fixed", dict |-> "TypedDict", ro |-> FALSE, min |-> 1, limit |-> 0, thr |-> 50]
FewStrategies ==
  {Default, [Default EXCEPT !.tuple = "any size", !.thr = 33], [Default EXCEPT !.limit = 1, !.thr = 100],
   [Default EXCEPT !.dict = "Mapping", !.list = "Sequence", !.limit = 1],
   [Default EXCEPT !.dict = "dict", !.tuple = "any size"], [Default EXCEPT !.ro = TRUE, !.thr = 67, !.limit = 2]}
=============================================================================
