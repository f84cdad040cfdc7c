----------------------------- MODULE Trace_Init -----------------------------
EXTENDS TraceBase, Init
RECURSIVE Permuted(_, _)
Permuted(B, o) == IF o = <<>> THEN <<>> ELSE <<B[Head(o)]>> \o Permuted(B, Tail(o))

\* One coordinator: batches in sequence up to the first error.
RECURSIVE Batches(_, _, _)
Batches(bs, res, done) ==
  IF bs = <<>> THEN res = <<>>
  ELSE /\ res # <<>>
       /\ RanOk(Head(bs), done, Head(res).ran, Head(res).ok)
       /\ IF Head(res).ok THEN Batches(Tail(bs), Tail(res), DoneAfter(Head(bs), done))
          ELSE Len(res) = 1
Oks(res) == [i \in 1..Len(res) |-> res[i].ok]
Rans(res) == [i \in 1..Len(res) |-> res[i].ran]
RunOk(e) ==
  /\ \A p \in 1..Len(e.res) : Batches(e.batches, e.res[p], {})
  \* the order of registration does not matter
  /\ \A p \in 1..Len(e.res) : Oks(e.res[p]) = Oks(e.res[1])
  /\ (\A i \in 1..Len(e.batches) : Named(e.batches[i])) =>
       \A p \in 1..Len(e.res) : \A i \in 1..Len(e.res[1]) :
         e.res[1][i].ok => e.res[p][i].ran = e.res[1][i].ran

\* A process: registrations, InitArolla, InitArollaSecondary, CheckInitArolla.
RECURSIVE Proc(_, _, _, _, _, _)
Proc(items, st, obs, pend, up, done) ==
  IF st = <<>> THEN obs = <<>>
  ELSE /\ obs # <<>>
       /\ LET s == Head(st)
              o == Head(obs)
              go == (s.k = "init" /\ ~up) \/ (s.k = "second" /\ up)
              Bt == Permuted(items, pend)
              \* positions within the pending batch
              pos == [i \in 1..Len(o.ran) |-> CHOOSE j \in 1..(Len(pend) + 1) :
                        IF j <= Len(pend) THEN pend[j] = o.ran[i] ELSE ~\E m \in 1..Len(pend) : pend[m] = o.ran[i]]
          IN IF go
             THEN /\ RanOk(Bt, done, pos, o.ok)
                  /\ IF o.ok THEN Proc(items, Tail(st), Tail(obs), <<>>, TRUE, DoneAfter(Bt, done))
                     ELSE Len(obs) = 1
             ELSE /\ o.ran = <<>>
                  /\ o.ok = ~(s.k = "check" /\ ~up)
                  /\ IF o.ok THEN Proc(items, Tail(st), Tail(obs),
                                       IF s.k = "reg" THEN Append(pend, s.i) ELSE pend, up, done)
                     ELSE Len(obs) = 1
Ok(e) == CASE e.op = "run" -> RunOk(e)
           [] e.op = "proc" -> Proc(e.items, e.steps, e.obs, <<>>, FALSE, {})
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
