------------------------------ MODULE Gen_Path ------------------------------
(* Enumerates the well-typed paths of the schema.                             *)
EXTENDS Path, Json, IOUtils, TLC

MaxDepth == atoi(IOEnv.DEPTH)
Keys == JsonDeserialize(IOEnv.KEYS)   \* [name, key] pairs

SchemaIn == JsonDeserialize(IOEnv.SCHEMA)

VARIABLES root, path, ty

MsgSteps(t) ==
  UNION {LET s == Schema[t][n]
             ext == Len(n) > 2 /\ SubSeq(n, 1, 2) = "x:"
             f == IF ext THEN SubSeq(n, 3, Len(n)) ELSE n
         IN  CASE s.c \in {"opt", "imp"} -> {[k |-> IF ext THEN "ext" ELSE "reg", f |-> f]}
               [] s.c = "val" -> {[k |-> "st", f |-> f]}
               [] s.c = "rep" /\ ~ext -> {[k |-> "idx", f |-> f, i |-> 0], [k |-> "idx", f |-> f, i |-> 2], [k |-> "rep", f |-> f],
                                          [k |-> "size", m |-> [k |-> "rep", f |-> f]]}
               [] s.c = "map" -> {[k |-> "vals", f |-> f], [k |-> "keys", f |-> f], [k |-> "size", m |-> [k |-> "rep", f |-> f]]}
                                 \cup (IF s.kt = "string" THEN {[k |-> "wild", f |-> f]} \cup {[k |-> "mapk", f |-> f, name |-> Keys[i].name, key |-> Keys[i].key] : i \in DOMAIN Keys} ELSE {})
               [] OTHER -> {}
         : n \in DOMAIN Schema[t]}
IsPtr(t) == Len(t) > 4 /\ SubSeq(t, 1, 4) = "ptr:"
IsVec(t) == Len(t) > 4 /\ SubSeq(t, 1, 4) = "vec:"
Steps(t) == CASE IsRecord(t) -> MsgSteps(t) \cup (IF path = <<>> THEN {} ELSE IF path[Len(path)].k = "deref" THEN {} ELSE {[k |-> "addr"]})
              [] IsPtr(t) -> {[k |-> "deref"]}
              [] IsVec(t) -> {[k |-> "root"], [k |-> "size", m |-> [k |-> "root"]]}
              [] OTHER -> {}

Init == root \in {"M2", "M3", "Kw", "Node", "vec:M2", "vec:Node"} /\ path = <<>> /\ ty = root
Wilds == Cardinality({i \in DOMAIN path : path[i].k = "wild"})
Next == \E e \in Steps(ty) :
          /\ Len(path) < MaxDepth
          /\ (IF path = <<>> THEN TRUE ELSE path[Len(path)].k # "keys")
          /\ e.k = "wild" => Wilds = 0
          /\ e.k = "addr" => Len(path) < MaxDepth - 1
          /\ path' = Append(path, e) /\ ty' = StepType(ty, e) /\ UNCHANGED root
Final == IF path = <<>> THEN FALSE ELSE ~IsRecord(ty) /\ ~IsVec(ty) /\ (IsPtr(ty) => path[Len(path)].k = "addr")
         /\ (path[Len(path)].k = "size" => Wilds = 0)
Emit == Final => PrintT(ToJson([root |-> root, es |-> path, t |-> ty]))
=============================================================================
