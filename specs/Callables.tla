----------------------------- MODULE Callables -----------------------------
(***************************************************************************)
(* How callables are described.                                            *)
(*                                                                         *)
(* A callable is [kind, params, ret, returns]:                             *)
(*   kind   "def" "async" "wrapped" "static" "rawstatic" "unbound"  (all   *)
(*          of their parameters are asked for)  "method" "classm" (the     *)
(*          first one is bound)  "lambda"  "builtin" "rawclassm" (nothing  *)
(*          is known)  "nosource" (a function without source)              *)
(*   params [name, pk, ann, dflt], pk being "po" "pk" "va" "ko" "vk"; ann  *)
(*          and dflt are texts, "" if there is none; dflt "?" is a value   *)
(*          that cannot be written                                         *)
(*   ret    the annotation of what is returned, "" if none                 *)
(*   returns TRUE if there is a return or a yield in its body              *)
(* They are described by a text: a signature "proto:(..) -> .." or         *)
(* "Callable..".                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Bound(f) == f.kind \in {"method", "classm", "asyncmethod"}
Async(f) == f.kind \in {"async", "asyncmethod"}
Asked(f) == IF Bound(f) THEN Tail(f.params) ELSE f.params
IsPositional(p) == p.pk \in {"po", "pk"}

Default(p) == IF p.dflt = "" THEN "" ELSE "=" \o (IF p.dflt = "?" THEN "..." ELSE p.dflt)
Param(p) == (IF p.pk = "va" THEN "*" ELSE IF p.pk = "vk" THEN "**" ELSE "") \o p.name
              \o (IF p.ann = "" THEN "" ELSE ": " \o p.ann) \o Default(p)
RECURSIVE Commas(_)
Commas(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o ", " \o Commas(Tail(ss))

RECURSIVE Listed(_, _)
(* Texts of the parameters from the i-th one on, with the marks between the kinds of parameters. *)
Listed(ps, i) ==
  IF i > Len(ps) THEN <<>>
  ELSE LET p == ps[i]
           star == IF p.pk = "ko" /\ (i = 1 \/ ps[i - 1].pk \in {"po", "pk"}) THEN <<"*">> ELSE <<>>
           slash == IF p.pk = "po" /\ (i = Len(ps) \/ ps[i + 1].pk # "po") THEN <<"/">> ELSE <<>>
       IN star \o <<Param(p)>> \o slash \o Listed(ps, i + 1)

Returned(f) ==
  IF f.ret # "" THEN f.ret
  ELSE IF Async(f) \/ f.kind = "nosource" \/ f.returns THEN "Any" ELSE "None"

Described(f) ==
  CASE f.kind \in {"builtin", "rawclassm"} -> "Callable"
    [] f.kind = "lambda" ->
         IF \A i \in 1..Len(f.params) : IsPositional(f.params[i])
           THEN "Callable[[" \o Commas([i \in 1..Len(f.params) |-> "Any"]) \o "], Any]"
           ELSE "Callable[..., Any]"
    [] OTHER -> "proto:" \o (IF Async(f) THEN "async (" ELSE "(") \o Commas(Listed(Asked(f), 1)) \o ") -> " \o Returned(f)

RECURSIVE Fill(_)
(* The value, with its callables (leaves with a field fn) described. *)
Fill(v) == IF "fn" \in DOMAIN v THEN [k |-> "fixed", t |-> Described(v.fn), xs |-> <<>>, ks |-> <<>>]
           ELSE [v EXCEPT !.xs = [i \in 1..Len(v.xs) |-> Fill(v.xs[i])]]
=============================================================================
