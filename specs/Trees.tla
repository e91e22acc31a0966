-------------------------------- MODULE Trees --------------------------------
(***************************************************************************)
(* The trees of the data: which ones are equal, and how their nodes are    *)
(* linked.  A node is a record [kids, again, len, depth, height, up] where *)
(* kids and up are positions of other nodes (up is 0 without parent).      *)
(***************************************************************************)
EXTENDS PyModule

(* Keys count by name only in TypedDicts, and by their type elsewhere. *)
SameTree(v, w, S) == Tree(Trunc(v, S), S) = Tree(Trunc(w, S), S)

Highest(nodes, kids) == Max({nodes[kids[i]].height : i \in 1..Len(kids)})
Linked(nodes) ==
  (IF Len(nodes) > 0 /\ nodes[1].depth = 0 /\ nodes[1].up = 0 THEN {} ELSE {"wrong-root"}) \cup
  UNION {LET n == nodes[i] IN
         (IF n.again /\ n.len = Len(n.kids) THEN {} ELSE {"wrong-iteration"})
           \cup (IF \A j \in 1..Len(n.kids) : nodes[n.kids[j]].depth = n.depth + 1 THEN {} ELSE {"wrong-depth"})
           \cup (IF \A j \in 1..Len(n.kids) : nodes[n.kids[j]].up = i THEN {} ELSE {"wrong-parent"})
           \cup (IF n.kids = <<>> THEN IF n.height \in {0, 1} THEN {} ELSE {"wrong-height"}
                 ELSE IF n.height = 1 + Highest(nodes, n.kids) THEN {} ELSE {"wrong-height"})
         : i \in 1..Len(nodes)}
=============================================================================
