------------------------------ MODULE PyModule ------------------------------
(***************************************************************************)
(* The generated Python module as a data structure: what it defines, what  *)
(* it means (aliases inlined) and when it is well formed.                  *)
(*                                                                         *)
(* A module is [imports: <<[m, n, as]>>, defs: <<def>>, junk: <<string>>]  *)
(* def  = [name, form, e, fields, refs, sig, doc]                          *)
(*   form  "alias" (N: TypeAlias = e)   "td" (class N(TypedDict))          *)
(*         "ftd" (N = TypedDict("N", ..))  "proto" (class N(Protocol))     *)
(*         "frame" (class N(pd.DataFrame))   "other"                       *)
(* field = [key, e, doc, hasdoc]                                           *)
(* expr = [k, n, as]: "n" name, "s" quoted name, "a" n[as], "e" ellipsis,   *)
(*        "c" any other expression, n being its source                     *)
(***************************************************************************)
EXTENDS Types

DefNames(mod) == {mod.defs[i].name : i \in 1..Len(mod.defs)}
(* Position of the definition a name refers to when read before position p; 0 if none. *)
DefBefore(mod, n, p) ==
  LET S == {i \in 1..(p - 1) : mod.defs[i].name = n} IN IF S = {} THEN 0 ELSE Max(S)

RECURSIVE Res(_, _, _), ResDef(_, _)
(* Meaning of an expression read just before definition p. *)
Res(mod, e, p) ==
  CASE e.k = "n" -> LET i == DefBefore(mod, e.n, p) IN
                      IF i > 0 THEN ResDef(mod, i) ELSE TName(e.n)
    [] e.k = "s" -> TFwd(e.n)
    [] e.k = "e" -> TEll
    [] e.k = "a" -> IF e.n = "Union" THEN TUnion({Res(mod, e.as[i], p) : i \in 1..Len(e.as)})
                    ELSE TApp(e.n, [i \in 1..Len(e.as) |-> Res(mod, e.as[i], p)])
    [] OTHER -> TName(e.n)

RECURSIVE StripField(_, _)
(* NotRequired[..] and ReadOnly[..] are qualifiers of the key, not types. *)
StripField(e, q) ==
  IF e.k = "a" /\ e.n \in {"NotRequired", "ReadOnly"} /\ Len(e.as) = 1
    THEN StripField(e.as[1], q \cup {e.n}) ELSE <<e, q>>

ResDef(mod, i) ==
  LET d == mod.defs[i] IN
  CASE d.form = "alias" -> Res(mod, d.e, i)
    [] d.form \in {"td", "ftd"} ->
         TTD({LET s == StripField(d.fields[j].e, {})
              IN TFld(d.fields[j].key, "NotRequired" \notin s[2], "ReadOnly" \in s[2], Res(mod, s[1], i))
                : j \in 1..Len(d.fields)})
    [] d.form = "proto" -> TName(d.sig)
    [] d.form = "frame" -> TFrame([j \in 1..Len(d.overs) |-> TApp(d.overs[j].key, <<Res(mod, d.overs[j].e, i)>>)])
    [] OTHER -> TName(d.name)

(* The type a whole module stands for: the one of its last definition. *)
Meaning(mod) == IF Len(mod.defs) = 0 THEN TName("<nothing>") ELSE ResDef(mod, Len(mod.defs))

-----------------------------------------------------------------------------
Builtins == {"None", "bool", "memoryview", "bytearray", "bytes", "classmethod", "complex", "dict", "enumerate",
             "filter", "float", "frozenset", "property", "int", "list", "map", "object", "range", "reversed", "set",
             "slice", "staticmethod", "str", "super", "tuple", "type", "zip", "BaseException", "BaseExceptionGroup",
             "Exception", "GeneratorExit", "KeyboardInterrupt", "SystemExit", "ArithmeticError", "AssertionError",
             "AttributeError", "BufferError", "EOFError", "ImportError", "LookupError", "MemoryError", "NameError",
             "OSError", "ReferenceError", "RuntimeError", "StopAsyncIteration", "StopIteration", "SyntaxError",
             "SystemError", "TypeError", "ValueError", "Warning", "FloatingPointError", "OverflowError",
             "ZeroDivisionError", "BytesWarning", "DeprecationWarning", "EncodingWarning", "FutureWarning",
             "ImportWarning", "PendingDeprecationWarning", "ResourceWarning", "RuntimeWarning", "SyntaxWarning",
             "UnicodeWarning", "UserWarning", "BlockingIOError", "ChildProcessError", "ConnectionError",
             "FileExistsError", "FileNotFoundError", "InterruptedError", "IsADirectoryError", "NotADirectoryError",
             "PermissionError", "ProcessLookupError", "TimeoutError", "IndentationError", "IndexError", "KeyError",
             "ModuleNotFoundError", "NotImplementedError", "RecursionError", "UnboundLocalError", "UnicodeError",
             "BrokenPipeError", "ConnectionAbortedError", "ConnectionRefusedError", "ConnectionResetError",
             "TabError", "UnicodeDecodeError", "UnicodeEncodeError", "UnicodeTranslateError", "ExceptionGroup",
             "EnvironmentError", "IOError"}

(* Where every name the generator may import lives. *)
Home ==
  [List |-> "typing", Set |-> "typing", Tuple |-> "typing", Type |-> "typing", Dict |-> "typing",
   Sequence |-> "typing", Hashable |-> "typing", FrozenSet |-> "typing", Mapping |-> "typing",
   MappingProxyType |-> "types", TypedDict |-> "typing", Any |-> "typing", Union |-> "typing",
   Optional |-> "typing", NotRequired |-> "typing_extensions", ReadOnly |-> "typing_extensions",
   Callable |-> "typing", ModuleType |-> "types", Protocol |-> "typing", Literal |-> "typing",
   overload |-> "typing", NDArray |-> "numpy.typing", TypeAlias |-> "typing_extensions",
   Scalar |-> "pandas._typing", TextIO |-> "typing", BinaryIO |-> "typing", Iterator |-> "typing"]

ImportedAs(mod) == {mod.imports[i].as : i \in 1..Len(mod.imports)}
BadImports(mod) ==
  {i \in 1..Len(mod.imports) :
     LET im == mod.imports[i] IN
     ~ \/ im.n = "" /\ <<im.m, im.as>> \in {<<"pandas", "pd">>, <<"numpy", "np">>, <<"numpy.typing", "npt">>}
       \/ im.m = "__future__" /\ im.n = "annotations" /\ i = 1
       \/ im.n \in DOMAIN Home /\ im.as = im.n /\ Home[im.n] = im.m}

RECURSIVE NamesIn(_)
NamesIn(e) ==
  CASE e.k = "n" -> {e.n}
    [] e.k = "a" -> {e.n} \cup UNION {NamesIn(e.as[i]) : i \in 1..Len(e.as)}
    [] OTHER -> {}

(* Names needed when definition i is executed or read. refs are computed from the syntax. *)
Refs(mod, i) == ToSet(mod.defs[i].refs)
Undefined(mod) ==
  UNION {{n \in Refs(mod, i) : /\ n \notin ImportedAs(mod)
                               /\ n \notin Builtins
                               /\ DefBefore(mod, n, i) = 0} : i \in 1..Len(mod.defs)}

RECURSIVE Reach(_, _)
Reach(mod, I) ==
  LET J == I \cup {DefBefore(mod, n, i) : n \in UNION {Refs(mod, h) : h \in I}, i \in I}
      K == {j \in J : j > 0}
  IN IF K = I THEN I ELSE Reach(mod, K)

(* Names of the ways in which a module can be wrong. *)
WellFormed(mod, cls) ==
  (IF Len(mod.junk) = 0 THEN {} ELSE {"unexpected-statement"}) \cup
  (IF Len(mod.defs) > 0 /\ mod.defs[Len(mod.defs)].name = cls THEN {} ELSE {"root-is-not-last"}) \cup
  (IF Cardinality(DefNames(mod)) = Len(mod.defs) THEN {} ELSE {"name-defined-twice"}) \cup
  (IF Undefined(mod) = {} THEN {} ELSE {"undefined-name"}) \cup
  (IF BadImports(mod) = {} THEN {} ELSE {"wrong-import"}) \cup
  (IF Cardinality(ToSet(mod.imports)) = Len(mod.imports) THEN {} ELSE {"repeated-import"}) \cup
  (IF DefNames(mod) \cap (ImportedAs(mod) \cup Builtins) = {} THEN {} ELSE {"import-shadowed"}) \cup
  (IF Len(mod.defs) = 0 \/ Reach(mod, {Len(mod.defs)}) = 1..Len(mod.defs) THEN {} ELSE {"dead-definition"})

-----------------------------------------------------------------------------
(* Layout: which types get a name of their own. *)
RECURSIVE InlineContainers(_, _, _)
(* Containers written in place within an expression (definitions are not followed). *)
InlineContainers(mod, e, p) ==
  IF e.k # "a" THEN {}
  ELSE (LET t == Res(mod, e, p) IN IF e.n # "Union" /\ IsContainer(t) /\ t.k = "app" THEN {t} ELSE {})
       \cup UNION {InlineContainers(mod, e.as[i], p) : i \in 1..Len(e.as)}

Exprs(d) == IF d.form = "alias" THEN <<d.e>> ELSE IF d.form = "frame" THEN [j \in 1..Len(d.overs) |-> d.overs[j].e] ELSE [j \in 1..Len(d.fields) |-> d.fields[j].e]

Layout(mod, min) ==
  LET N == Len(mod.defs) IN
  (* a definition other than the root is high enough, or is a dictionary or a callable *)
  (IF \A i \in 1..(N - 1) :
        \/ mod.defs[i].form \in {"td", "ftd", "proto", "frame"}
        \/ mod.defs[i].form = "alias" /\
             LET t == ResDef(mod, i) IN
               \/ Height(t) > min
               \/ t.k = "name" /\ (mod.defs[i].e.k = "c" \/ mod.defs[i].e.n \in {"Callable", "pd.DataFrame"})    \* Callable[..]: functions always have a name, and tables may
   THEN {} ELSE {"alias-too-low"}) \cup
  (* what is written in place is low enough *)
  (IF \A i \in 1..N : \A j \in 1..Len(Exprs(mod.defs[i])) :
        LET e == Exprs(mod.defs[i])[j]
            inner == IF mod.defs[i].form = "alias" /\ e.k = "a"
                       THEN UNION {InlineContainers(mod, e.as[h], i) : h \in 1..Len(e.as)}
                       ELSE InlineContainers(mod, e, i)
        IN \A t \in inner : Height(t) <= min
   THEN {} ELSE {"inline-too-high"})
=============================================================================
