------------------------------- MODULE Objects -------------------------------
(***************************************************************************)
(* Which kind of value (see Types) any object is, from what Python says of *)
(* its class: o = [cls, mro, builtin, iterator, cast], mro being the       *)
(* classes its class inherits from, itself first.  cls and builtin are the *)
(* ones of the object itself if it is a class.                             *)
(***************************************************************************)
EXTENDS Types

Scalars == {"builtins.bool", "builtins.int", "builtins.float", "builtins.range", "builtins.slice", "builtins.str"}
Is(o, c) == c \in ToSet(o.mro)
KindOf(o) ==
  CASE Is(o, "builtins.type") -> IF o.builtin THEN "cls" ELSE "ucls"
    [] o.mro[1] = "builtins.NoneType" -> "none"
    [] o.mro[1] \in Scalars -> "leaf"
    [] Is(o, "builtins.module") \/ Is(o, "_io._IOBase") -> "fixed"
    [] Is(o, "builtins.mappingproxy") -> "mproxy"
    [] Is(o, "builtins.dict") -> "dict"
    [] Is(o, "builtins.list") -> "list"
    [] Is(o, "builtins.tuple") -> "tuple"
    [] Is(o, "builtins.frozenset") -> "frozenset"
    [] Is(o, "builtins.set") -> "set"
    [] Is(o, "numpy.ndarray") -> "inst"
    [] \E i \in 1..Len(o.mro) : o.mro[i] \in Scalars -> IF o.builtin THEN "leaf" ELSE "inst"
    [] o.iterator -> "iter"
    [] OTHER -> IF o.builtin THEN "leaf" ELSE "inst"

NameOf(o) ==
  CASE Is(o, "builtins.module") -> "ModuleType"
    [] Is(o, "_io._TextIOBase") -> "TextIO"
    [] Is(o, "_io._IOBase") -> "BinaryIO"
    [] Is(o, "numpy.ndarray") -> "NDArray[np." \o o.cast \o "]"
    [] OTHER -> o.cls

RECURSIVE Known(_)
(* The value, with its objects (the ones with a field o) in their place. *)
Known(v) ==
  LET xs == [i \in 1..Len(v.xs) |-> Known(v.xs[i])] IN
  IF "o" \notin DOMAIN v THEN [v EXCEPT !.xs = xs]
  ELSE LET k == KindOf(v.o) IN
       [k |-> k, t |-> IF k \in SeqKinds \cup MapKinds \cup {"none"} THEN "" ELSE NameOf(v.o),
        xs |-> IF k \in SeqKinds \cup MapKinds THEN xs ELSE <<>>, ks |-> IF k \in MapKinds THEN v.ks ELSE <<>>]
=============================================================================
