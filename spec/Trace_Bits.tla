----------------------------- MODULE Trace_Bits -----------------------------
EXTENDS TraceBase, Bits
S(q) == {q[i] : i \in 1..Len(q)}
Same(q, T) == S(q) = T /\ Len(q) = Cardinality(T)
Result(e) ==
  LET m == S(e.m) IN
  CASE e.op \in {"getbit", "bm_get"} -> e.res = (e.a \in m)
    [] e.op \in {"setbit", "bm_set"} -> Same(e.out, SetBitOp(m, e.a))
    [] e.op = "bm_unset" -> Same(e.out, UnsetBitOp(m, e.a))
    [] e.op = "setrange" -> Same(e.out, SetRangeOp(m, e.a, e.b))
    [] e.op = "countrange" -> e.res = CountRangeOp(m, e.a, e.b)
    [] e.op = "findnext" -> e.res = FindNextOp(m, e.a, e.b)
    [] e.op = "ones" -> e.res = Cardinality(m)
    [] e.op = "lsb" -> e.res = MinOf(m)
    [] e.op = "msb" -> e.res = MaxOf(m)
    [] e.op = "clz" -> e.res = e.w - 1 - MaxOf(m)
    [] e.op \in {"and", "andin"} -> Same(e.out, m \cap S(e.r))
    [] e.op = "andoff" -> Window(S(e.out), e.ls, e.n) = AndWindow(m, e.ls, S(e.r), e.rs, e.n)
    [] e.op = "copybits" -> Same(e.out, CopyOp(m, e.ls, S(e.r), e.rs, e.n))
    [] e.op = "roundup" -> e.res = RoundUpOp(e.v, e.d)
    [] e.op = "bm_allset" -> e.res = (Range(0, e.n) \subseteq m)
    [] e.op = "bm_allunset" -> e.res = (Range(0, e.n) \cap m = {})
    [] e.op = "bm_count" -> e.res = CountBitsOp(m, e.nbits, e.a, e.n)
    [] e.op = "bm_iter" -> e.seq = [i \in 1..e.n |-> (e.nbits = 0) \/ (e.a + i - 1) \in m]
    [] e.op = "bm_intersect" ->
         LET k == IF e.ls < e.rs THEN e.ls ELSE e.rs IN
         Window(S(e.out), k, e.n) = AndWindow(m, e.ls, S(e.r), e.rs, e.n)
    (* GetWord / GetWordWithOffset: 32 bits from the word index and offset on  *)
    [] e.op = "bm_word" ->
         /\ Same(e.word, IF e.a >= e.n THEN Range(0, 32)
                         ELSE Window(m, 32 * e.a, 32))
         /\ LET avail == IF e.a >= e.n THEN Range(0, 32)
                         ELSE {i \in Range(0, 32) : 32 * e.a + e.b + i < 32 * e.n}
            IN S(e.off) \cap avail =
               (IF e.a >= e.n THEN avail ELSE Window(m, 32 * e.a + e.b, 32) \cap avail)
    (* builders: everything not missed is present; empty iff nothing is missed *)
    [] e.op = "bm_almost" ->
         /\ (e.size > 0 => e.empty = (e.missed = <<>>))
         /\ ~e.empty => Window(S(e.out), 0, e.size) = Range(0, e.size) \ S(e.missed)
         /\ ~e.empty => e.words = Words(e.size, 32)
    [] e.op = "bm_builder" ->
         /\ e.empty = (Range(0, e.n) \subseteq m)
         /\ ~e.empty => Window(S(e.out), 0, e.n) = Window(m, 0, e.n)
         /\ ~e.empty => e.words = Words(e.n, 32)
    [] e.op = "bm_empty" -> e.out = <<>> /\ e.words = Words(e.n, 32)
    [] OTHER -> FALSE
Inv == ~Crashed(Trace[l]) /\ Trace[l].guard /\ Result(Trace[l])
=============================================================================
