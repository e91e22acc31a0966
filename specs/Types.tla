------------------------------- MODULE Types -------------------------------
(***************************************************************************)
(* The meaning of lazy_type_hint's inference.                              *)
(*                                                                         *)
(* VALUES are records [k, t, xs, ks]:                                      *)
(*   k  "leaf"  an instance of the builtin class named t                   *)
(*      "none"  the value None                                             *)
(*      "inst"  an instance of a user class named t                        *)
(*      "fixed" anything whose type does not depend on its contents and    *)
(*              is described by the canonical type name t (modules, files, *)
(*              functions, numpy arrays, ...)                              *)
(*      "cls"   a builtin class named t,   "ucls" a user class named t     *)
(*      "list" "tuple" "set" "frozenset" "iter"   containers over xs       *)
(*      "dict" "mproxy"     mappings: keys ks (records [t, s]), values xs  *)
(*      "series" a column, over xs   "frame" a table: columns xs named ks  *)
(*              (s is how the name is written; t "tuple" if it cannot be   *)
(*              written, "other" if none of them can), t being all of the  *)
(*              names; a column is a series or, with several levels of     *)
(*              names, another table                                       *)
(*                                                                         *)
(* TYPES are records [k, n, as, ms, fs]:                                   *)
(*   name n | fwd n (a quoted name) | app n[as] | ell (...) |              *)
(*   union ms | td fs (a TypedDict with fields [key, req, ro, t])          *)
(*   frame as (a table, with a type name[t] for each of its columns)       *)
(*                                                                         *)
(* STRATEGIES are records [list, tuple, dict, ro, min, limit, thr].        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

-----------------------------------------------------------------------------
(* Types *)
MkT(k, n, as, ms, fs) == [k |-> k, n |-> n, as |-> as, ms |-> ms, fs |-> fs]
TName(n)   == MkT("name", n, <<>>, {}, {})
TFwd(n)    == MkT("fwd", n, <<>>, {}, {})
TApp(n, as) == MkT("app", n, as, {}, {})
TEll       == MkT("ell", "...", <<>>, {}, {})
TTD(fs)    == MkT("td", "TypedDict", <<>>, {}, fs)
TFrame(as) == MkT("frame", "pd.DataFrame", as, {}, {})
TAny       == TName("Any")
TFld(key, req, ro, t) == [key |-> key, req |-> req, ro |-> ro, t |-> t]
Members(t) == IF t.k = "union" THEN t.ms ELSE {t}
TUnion(S) == LET flat == UNION {Members(t) : t \in S}
             IN IF Cardinality(flat) = 1 THEN CHOOSE t \in flat : TRUE
                ELSE MkT("union", "Union", <<>>, flat, {})

(* The numeric tower: `float` already stands for `int` in a union. *)
DropInt(S) == IF TName("float") \in S THEN S \ {TName("int")} ELSE S

-----------------------------------------------------------------------------
(* Values *)
SeqKinds == {"list", "tuple", "set", "frozenset", "iter", "series"}
MapKinds == {"dict", "mproxy"}
IsMap(v) == v.k \in MapKinds
IsSeq(v) == v.k \in SeqKinds
AllStr(v) == \A i \in 1..Len(v.ks) : v.ks[i].t = "str"
IsTD(v, S) == v.k = "dict" /\ S.dict = "TypedDict" /\ AllStr(v)

Prefix(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)

(* What the scan limit leaves of a value. *)
RECURSIVE Trunc(_, _)
Trunc(v, S) ==
  LET cut == S.limit > 0 /\ (IsSeq(v) \/ v.k = "mproxy" \/ (v.k = "dict" /\ S.dict # "TypedDict"))
      xs  == IF cut THEN Prefix(v.xs, S.limit) ELSE v.xs
      ks  == IF cut THEN Prefix(v.ks, S.limit) ELSE v.ks
  IN [v EXCEPT !.xs = [i \in 1..Len(xs) |-> Trunc(xs[i], S)], !.ks = ks]

-----------------------------------------------------------------------------
(* Type trees: what is compared when looking for repeated values.          *)
(* They keep int next to float and which key type goes with which value.   *)
MkN(k, n, as, ms, fs, ps) == [k |-> k, n |-> n, as |-> as, ms |-> ms, fs |-> fs, ps |-> ps]
NLeaf(k, n) == MkN(k, n, <<>>, {}, {}, {})
NFld(key, req, t) == [key |-> key, req |-> req, t |-> t]
IsNTD(n) == n.k = "td"
KeysOf(td) == {f.key : f \in td.fs}
FieldOf(td, key) == CHOOSE f \in td.fs : f.key = key

NumPair == {NLeaf("leaf", "int"), NLeaf("leaf", "float")}
(* The trees found under a key that several dictionaries have in common can be described by one. *)
Compatible(ts) == Cardinality(ts) = 1 \/ ts = NumPair
Pick(ts) == IF Cardinality(ts) = 1 THEN CHOOSE t \in ts : TRUE ELSE NLeaf("leaf", "float")

Similarity(tds) ==
  LET all == UNION {KeysOf(d) : d \in tds}
      common == {k \in all : \A d \in tds : k \in KeysOf(d)}
  IN IF all = {} THEN 0 ELSE (100 * Cardinality(common)) \div Cardinality(all)

TreesAt(tds, key) == {FieldOf(d, key).t : d \in {e \in tds : key \in KeysOf(e)}}

CanMerge(tds, thr) ==
  /\ Cardinality(tds) >= 2
  /\ Similarity(tds) >= thr
  /\ \A key \in UNION {KeysOf(d) : d \in tds} : Compatible(TreesAt(tds, key))

Merged(tds) ==
  MkN("td", "TypedDict", <<>>, {},
      {NFld(key, \A d \in tds : key \in KeysOf(d), Pick(TreesAt(tds, key)))
         : key \in UNION {KeysOf(d) : d \in tds}}, {})

TDsIn(ns) == {n \in ns : IsNTD(n)}
MergeSet(ns, thr) ==
  IF CanMerge(TDsIn(ns), thr) THEN (ns \ TDsIn(ns)) \cup {Merged(TDsIn(ns))} ELSE ns

(* The columns of a table can be described: their names are different and can be written. *)
RECURSIVE Repeated(_)
Repeated(v) == v.k = "frame" /\ (Cardinality(ToSet(v.ks)) # Len(v.ks) \/ \E i \in 1..Len(v.xs) : Repeated(v.xs[i]))
Tabular(v) == ~Repeated(v) /\ v.ks # <<>> /\ \A i \in 1..Len(v.ks) : v.ks[i].t # "other"

(* Names of the key types *)
KeyType(key) == IF key.t = "inst" THEN TFwd(key.s) ELSE IF key.t = "str" THEN TName("str") ELSE TName(key.t)

RECURSIVE Tree(_, _)
Tree(v, S) ==
  CASE v.k \in {"leaf", "none", "inst", "fixed", "cls", "ucls"} -> NLeaf(v.k, v.t)
    [] v.k = "frame" ->
         IF S.pandas = "Do not type hint columns" THEN NLeaf("fixed", "pd.DataFrame")
         ELSE MkN("frame", v.t,
                  IF Tabular(v) THEN [i \in 1..Len(v.xs) |-> <<v.ks[i], Tree(v.xs[i], S)>>] ELSE <<>>, {}, {}, {})
    [] v.k = "tuple" /\ S.tuple = "fixed" ->
         LET as == [i \in 1..Len(v.xs) |-> Tree(v.xs[i], S)]
             tds == TDsIn(ToSet(as))
         IN MkN("ftuple", "tuple",
                IF CanMerge(tds, S.thr)
                  THEN [i \in 1..Len(as) |-> IF IsNTD(as[i]) THEN Merged(tds) ELSE as[i]]
                  ELSE as, {}, {}, {})
    [] IsSeq(v) ->
         MkN("seq", v.k, <<>>, MergeSet({Tree(v.xs[i], S) : i \in 1..Len(v.xs)}, S.thr), {}, {})
    [] IsTD(v, S) ->
         MkN("td", "TypedDict", <<>>, {},
             {NFld(v.ks[i].s, TRUE, Tree(v.xs[i], S)) : i \in 1..Len(v.ks)}, {})
    [] OTHER ->
         MkN("map", v.k, <<>>, {}, {}, {<<KeyType(v.ks[i]), Tree(v.xs[i], S)>> : i \in 1..Len(v.ks)})

SeqName(n, S) ==
  CASE n = "list" -> IF S.list = "list" THEN "List" ELSE "Sequence"
    [] n = "set" -> "Set"
    [] n = "frozenset" -> "FrozenSet"
    [] n = "iter" -> "Iterator"
    [] n = "tuple" -> "Tuple"
    [] n = "series" -> "pd.Series"
MapName(n, S) ==
  CASE n = "mproxy" -> "MappingProxyType"
    [] S.dict = "Mapping" -> "Mapping"
    [] OTHER -> "Dict"

ElemUnion(S) == IF S = {} THEN TAny ELSE TUnion(DropInt(UNION {Members(t) : t \in S}))

LeafType(k, t) ==
  CASE k = "leaf" -> TName(t)
    [] k = "none" -> TApp("Optional", <<TName("object")>>)
    [] k = "inst" -> TFwd(t)
    [] k = "fixed" -> TName(t)
    [] k = "cls" -> TApp("Type", <<TName(t)>>)
    [] k = "ucls" -> TApp("Type", <<TFwd(t)>>)

RECURSIVE Rend(_, _)
Rend(n, S) ==
  CASE n.k = "ftuple" ->
         IF n.as = <<>> THEN TApp("Tuple", <<TAny, TEll>>)
         ELSE TApp("Tuple", [i \in 1..Len(n.as) |-> Rend(n.as[i], S)])
    [] n.k = "seq" ->
         LET e == ElemUnion({Rend(m, S) : m \in n.ms})
         IN TApp(SeqName(n.n, S), IF n.n = "tuple" THEN <<e, TEll>> ELSE <<e>>)
    [] n.k = "td" -> TTD({TFld(f.key, f.req, S.ro, Rend(f.t, S)) : f \in n.fs})
    [] n.k = "frame" ->
         IF n.as = <<>> THEN TName("pd.DataFrame")
         ELSE LET cols == SelectSeq(n.as, LAMBDA p : p[1].t # "tuple")
              IN TFrame([i \in 1..Len(cols) |-> TApp(cols[i][1].s, <<Rend(cols[i][2], S)>>)])
    [] n.k = "map" ->
         TApp(MapName(n.n, S), <<ElemUnion({p[1] : p \in n.ps}),
                                 ElemUnion({Rend(p[2], S) : p \in n.ps})>>)
    [] OTHER -> LeafType(n.k, n.n)

(* The reference: the type that must be generated for v. *)
Infer(v, S) == Rend(Tree(Trunc(v, S), S), S)

-----------------------------------------------------------------------------
(* SOUNDNESS: v is an instance of T.  Independent of Infer. *)
Origin(k) ==
  CASE k = "list" -> {"List", "Sequence"}
    [] k = "tuple" -> {"Tuple"}
    [] k = "set" -> {"Set"}
    [] k = "frozenset" -> {"FrozenSet"}
    [] k = "iter" -> {"Iterator"}
    [] k = "series" -> {"pd.Series"}
    [] k = "dict" -> {"Dict", "Mapping"}
    [] k = "mproxy" -> {"MappingProxyType"}
    [] OTHER -> {}

HasKey(key, T) ==
  \E m \in Members(T) :
     \/ m = TAny
     \/ m = KeyType(key)
     \/ key.t = "int" /\ m = TName("float")

RECURSIVE Has(_, _)
Has(v, T) ==
  \E m \in Members(T) :
    \/ m = TAny
    \/ v.k \notin SeqKinds \cup MapKinds \cup {"frame"} /\ m = LeafType(v.k, v.t)
    \/ v.k = "frame" /\ m = TName("pd.DataFrame")
    \/ v.k = "frame" /\ m.k = "frame"
         /\ (\A j \in 1..Len(v.ks) : v.ks[j].t # "tuple" => \E i \in 1..Len(m.as) : m.as[i].n = v.ks[j].s)
         /\ (\A i \in 1..Len(m.as) : \E j \in 1..Len(v.ks) : m.as[i].n = v.ks[j].s /\ Has(v.xs[j], m.as[i].as[1]))
    \/ v.k = "leaf" /\ v.t = "int" /\ m = TName("float")
    \/ m.k = "app" /\ m.n \in Origin(v.k) /\
         CASE v.k = "tuple" /\ Len(m.as) = 2 /\ m.as[2] = TEll ->
                \A i \in 1..Len(v.xs) : Has(v.xs[i], m.as[1])
           [] v.k = "tuple" ->
                Len(v.xs) = Len(m.as) /\ \A i \in 1..Len(v.xs) : Has(v.xs[i], m.as[i])
           [] v.k \in MapKinds ->
                Len(m.as) = 2 /\ \A i \in 1..Len(v.xs) : HasKey(v.ks[i], m.as[1]) /\ Has(v.xs[i], m.as[2])
           [] OTHER -> Len(m.as) = 1 /\ \A i \in 1..Len(v.xs) : Has(v.xs[i], m.as[1])
    \/ m.k = "td" /\ v.k = "dict" /\ AllStr(v)
         /\ (\A f \in m.fs : f.req => \E i \in 1..Len(v.ks) : v.ks[i].s = f.key)
         /\ (\A j \in 1..Len(v.ks) : \E g \in m.fs : g.key = v.ks[j].s /\ Has(v.xs[j], g.t))

-----------------------------------------------------------------------------
(* TIGHTNESS: T says nothing that the group of values G does not show.      *)
(* Independent of Infer: every alternative, every key and every NotRequired *)
(* has a witness, nothing is described as Any unless there is nothing to    *)
(* describe, and `float` stands for ints only next to a real float.         *)
IsLeafOf(v, t) == v.k = "leaf" /\ v.t = t
ValsAt(G, key) == {v.xs[CHOOSE i \in 1..Len(v.ks) : v.ks[i].s = key]
                     : v \in {w \in G : \E i \in 1..Len(w.ks) : w.ks[i].s = key}}

RECURSIVE Exact(_, _), ElemExact(_, _), TDGroupExact(_, _)
(* All the values of G are described by the non-union type T. *)
Exact(G, T) ==
  CASE T = TName("float") ->
         (\E v \in G : IsLeafOf(v, "float")) /\ \A v \in G : IsLeafOf(v, "float") \/ IsLeafOf(v, "int")
    [] T.k = "td" -> TDGroupExact(G, T)
    [] T = TName("pd.DataFrame") -> \A v \in G : v.k = "frame" \/ (v.k = "fixed" /\ v.t = "pd.DataFrame")
    [] T.k = "frame" ->
         \A v \in G : v.k = "frame" /\
           LET cols == SelectSeq([j \in 1..Len(v.ks) |-> <<v.ks[j], v.xs[j]>>], LAMBDA p : p[1].t # "tuple")
           IN Len(cols) = Len(T.as) /\ \A i \in 1..Len(cols) : cols[i][1].s = T.as[i].n /\ Exact({cols[i][2]}, T.as[i].as[1])
    [] T.k = "app" /\ T.n \notin {"Optional", "Type"} ->
         \A v \in G :
           /\ T.n \in Origin(v.k)
           /\ CASE v.k = "tuple" /\ Len(T.as) = 2 /\ T.as[2] = TEll -> ElemExact(v.xs, T.as[1])
                [] v.k = "tuple" ->
                     Len(T.as) = Len(v.xs) /\ \A i \in 1..Len(v.xs) :
                        \/ Exact({v.xs[i]}, T.as[i])
                        \/ v.xs[i].k = "dict" /\ T.as[i].k = "td"
                             /\ TDGroupExact({v.xs[j] : j \in {h \in 1..Len(v.xs) :
                                                   v.xs[h].k = "dict" /\ AllStr(v.xs[h])}}, T.as[i])
                [] v.k \in MapKinds ->
                     Len(T.as) = 2 /\ ElemExact(v.xs, T.as[2])
                       /\ LET kt == {KeyType(v.ks[i]) : i \in 1..Len(v.ks)}
                          IN Members(T.as[1]) = IF kt = {} THEN {TAny} ELSE DropInt(kt)
                [] OTHER -> Len(T.as) = 1 /\ ElemExact(v.xs, T.as[1])
    [] OTHER -> \A v \in G : v.k \notin SeqKinds \cup MapKinds \cup {"frame"} /\ T = LeafType(v.k, v.t)

ElemExact(xs, E) ==
  IF xs = <<>> THEN E = TAny
  ELSE LET G == ToSet(xs)
           Ms == Members(E)
           Ds == {v \in G : v.k = "dict" /\ AllStr(v)}
           HasFloat == \E v \in G : IsLeafOf(v, "float")
           Num(v) == IsLeafOf(v, "int") \/ IsLeafOf(v, "float")
       IN \* every element is described ...
          /\ \A v \in G : \/ \E m \in Ms : Exact({v}, m)
                          \/ HasFloat /\ Num(v) /\ TName("float") \in Ms
                          \/ v.k = "dict" /\ \E m \in Ms : m.k = "td" /\ TDGroupExact(Ds, m)
          \* ... and every alternative is needed
          /\ \A m \in Ms : \/ \E v \in G : Exact({v}, m)
                           \/ m.k = "td" /\ TDGroupExact(Ds, m)
          /\ ~(HasFloat /\ TName("int") \in Ms)

TDGroupExact(G, T) ==
  /\ T.k = "td" /\ G # {}
  /\ \A v \in G : v.k = "dict" /\ AllStr(v)
  /\ {f.key : f \in T.fs} = UNION {{v.ks[i].s : i \in 1..Len(v.ks)} : v \in G}
  /\ \A f \in T.fs :
       /\ f.req = \A v \in G : \E i \in 1..Len(v.ks) : v.ks[i].s = f.key
       /\ Exact(ValsAt(G, f.key), f.t)

(* A root value is described by exactly one type, never by a union. *)
Tight(v, T) == T.k # "union" /\ Exact({v}, T)

-----------------------------------------------------------------------------
(* Height, as used by min_height_to_define_type_alias *)
SetMax(S) == IF S = {} THEN 0 ELSE Max(S)
IsContainer(T) == T.k = "td" \/ (T.k = "app" /\ T.n \in {"List", "Sequence", "Tuple", "Set", "FrozenSet",
                                                        "Iterator", "Dict", "Mapping", "MappingProxyType", "pd.Series"})
RECURSIVE Height(_)
Height(T) ==
  CASE T.k = "union" -> SetMax({Height(m) : m \in T.ms})
    [] T.k = "td" -> 1 + SetMax({Height(f.t) : f \in T.fs})
    [] T.k = "frame" -> 1 + SetMax({Height(T.as[i].as[1]) : i \in 1..Len(T.as)})
    [] IsContainer(T) -> 1 + SetMax({Height(T.as[i]) : i \in 1..Len(T.as)})
    [] T = TName("pd.DataFrame") -> 1
    [] OTHER -> 0

(* Replace the containers of a type by the ones of other strategies that do not change its shape. *)
RECURSIVE Restyle(_, _)
Restyle(T, S) ==
  CASE T.k = "union" -> TUnion({Restyle(m, S) : m \in T.ms})
    [] T.k = "td" -> TTD({[f EXCEPT !.t = Restyle(f.t, S), !.ro = S.ro] : f \in T.fs})
    [] T.k = "app" ->
         TApp(CASE T.n \in {"List", "Sequence"} -> SeqName("list", S)
                [] T.n \in {"Dict", "Mapping"} -> MapName("dict", S)
                [] OTHER -> T.n,
              [i \in 1..Len(T.as) |-> Restyle(T.as[i], S)])
    [] OTHER -> T
=============================================================================
