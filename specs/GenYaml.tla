------------------------------ MODULE GenYaml ------------------------------
(***************************************************************************)
(* Every small YAML file: sequences of at most N lines over two levels of  *)
(* indentation, with comments everywhere.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, IOUtils, Json
N == atoi(IOEnv.N)
Kinds == {"K0", "K0s", "P0", "P0s", "K2", "K2s", "C0", "C0u", "C2", "E0", "B"}
Keys0 == {"K0", "K0s", "P0", "P0s"}
Keys2 == {"K2", "K2s"}
Keys == Keys0 \cup Keys2
(* The structure is valid: an indented key has a parent before it, and a parent has some indented key. *)
PrevKey(f, i) == LET J == {j \in 1..(i - 1) : f[j] \in Keys} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A k \in J : k <= j
NextKey(f, i) == LET J == {j \in (i + 1)..Len(f) : f[j] \in Keys} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A k \in J : j <= k
Valid(f) == /\ \E i \in 1..Len(f) : f[i] \in Keys
            /\ \A i \in 1..Len(f) :
                 /\ f[i] \in Keys2 => PrevKey(f, i) > 0 /\ f[PrevKey(f, i)] \in {"P0", "P0s"} \cup Keys2
                 /\ f[i] \in {"P0", "P0s"} => NextKey(f, i) > 0 /\ f[NextKey(f, i)] \in Keys2
Files == UNION {{f \in [1..n -> Kinds] : Valid(f)} : n \in 1..N}
ASSUME ndJsonSerialize(IOEnv.CASES, SetToSeq(Files))
=============================================================================
