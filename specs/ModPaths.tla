------------------------------ MODULE ModPaths ------------------------------
(***************************************************************************)
(* What a generated module has at a path of the data: keys and "[]", which *)
(* stands for any element of a container.  A node is a definition          *)
(* [k |-> "def", i] or a container written in place [k |-> "seq", es].     *)
(***************************************************************************)
EXTENDS PyModule
Wrappers == {"Union", "NotRequired", "ReadOnly", "Optional"}
RECURSIVE Expand(_, _, _)
Expand(mod, e, p) ==
  CASE e.k = "n" -> LET i == DefBefore(mod, e.n, p) IN
                    IF i = 0 THEN {}
                    ELSE IF mod.defs[i].form = "alias" THEN Expand(mod, mod.defs[i].e, i)
                    ELSE {[k |-> "def", i |-> i, es |-> <<>>]}
    [] e.k = "a" -> IF e.n \in Wrappers THEN UNION {Expand(mod, e.as[j], p) : j \in 1..Len(e.as)}
                    ELSE {[k |-> "seq", i |-> p, es |-> e.as]}
    [] OTHER -> {}
StepInto(mod, nodes, x) ==
  UNION {IF n.k = "seq" THEN IF x = "[]" THEN UNION {Expand(mod, n.es[j], n.i) : j \in 1..Len(n.es)} ELSE {}
         ELSE UNION {IF mod.defs[n.i].fields[j].key = x THEN Expand(mod, mod.defs[n.i].fields[j].e, n.i) ELSE {}
                       : j \in 1..Len(mod.defs[n.i].fields)} : n \in nodes}
RECURSIVE Nodes(_, _, _)
Nodes(mod, nodes, path) == IF path = <<>> THEN nodes ELSE Nodes(mod, StepInto(mod, nodes, Head(path)), Tail(path))
Root(mod) == Expand(mod, [k |-> "n", n |-> mod.defs[Len(mod.defs)].name, as |-> <<>>], Len(mod.defs) + 1)
=============================================================================
