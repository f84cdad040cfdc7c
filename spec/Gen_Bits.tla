------------------------------ MODULE Gen_Bits ------------------------------
(* Boundary-structured parameters for every operation; contents are chosen by  *)
(* the check.                                                                  *)
EXTENDS Bits, TLC, Json
VARIABLE x
Widths == {32, 64}
Edge(w) == {0, 1, 2, w \div 2, w - 2, w - 1}
Lens(w) == {0, 1, 2, w - 2, w - 1, w, w + 1, w + 2, 2 * w - 1, 2 * w, 2 * w + 1, 3 * w}
Pos(w) == {0, 1, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, 3 * w - 1}
Ranges == {[op |-> o, w |-> w, a |-> s, b |-> s + n] :
             o \in {"setrange", "countrange", "findnext"}, w \in Widths, s \in Pos(64), n \in Lens(64)}
Points == {[op |-> o, w |-> w, a |-> s] : o \in {"getbit", "setbit", "bm_unset", "bm_set", "bm_get"}, w \in Widths, s \in Pos(64) \cup Pos(32)}
Offs == {[op |-> o, w |-> w, ls |-> p, rs |-> q, n |-> n] :
             o \in {"andoff", "copybits"}, w \in Widths, p \in Edge(64), q \in Edge(64), n \in Lens(64) \cup Lens(32)}
Offs2 == {[op |-> o, w |-> 32, ls |-> p, rs |-> q, n |-> n] :
             o \in {"andoff", "copybits", "bm_intersect"}, p \in Edge(32), q \in Edge(32), n \in Lens(32)}
Ands == {[op |-> o, w |-> w, n |-> n] : o \in {"and", "andin"}, w \in Widths, n \in 0..17}
Single == {[op |-> o, w |-> w, a |-> s] : o \in {"lsb", "msb", "clz", "ones"}, w \in Widths, s \in Edge(64)}
Round == {[op |-> "roundup", v |-> v, d |-> d] : v \in 0..40, d \in 1..9}
BmN == {[op |-> o, w |-> 32, n |-> n] : o \in {"bm_allset", "bm_allunset", "bm_almost", "bm_builder", "bm_empty"}, n \in Lens(32) \cup {3, 40, 96, 100}}
BmR == {[op |-> o, w |-> 32, a |-> s, n |-> n] : o \in {"bm_count", "bm_iter"}, s \in Pos(32), n \in Lens(32)}
BmW == {[op |-> "bm_word", w |-> 32, a |-> i, b |-> o, n |-> k] : i \in 0..3, o \in Edge(32), k \in 0..3}
Init == x \in Ranges \cup Points \cup Offs \cup Offs2 \cup Ands \cup Single \cup Round \cup BmN \cup BmR \cup BmW
Next == FALSE /\ UNCHANGED x
Ok(c) == /\ (c.op \in {"andoff", "copybits"} => c.ls < c.w /\ c.rs < c.w)
         /\ (c.op \in {"lsb", "msb", "clz", "ones"} => c.a < c.w)
         /\ (c.op = "andoff" => c.n > 0)
Emit == Ok(x) => PrintT(ToJson(x))
=============================================================================
