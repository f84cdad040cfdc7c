---------------------------- MODULE Trace_Buffers ----------------------------
EXTENDS TraceSession, Buffers
VARIABLE own
vars == <<b, l, bvars, own>>
\* Foreign blocks are 1 and 2.  own[i]: the last claim of buffer i.
Heap == Evs[1].fac = "heap"
Fixed(x) == \A k \in 1..Len(x.el) : ~x.el[k].any
Agree == /\ \A i \in 1..4 : TRUE = Reads(buf'[i], Ev.vals[i]) /\ Ev.same[i]
         /\ TRUE = \A i, j \in 1..4 : (i = j \/ (Fixed(buf'[i]) /\ Fixed(buf'[j]))) =>
                                Ev.eq[i][j] = (Ev.vals[i] = Ev.vals[j])
         /\ own' = Ev.owner
Matches(mustown) == Agree /\ \A i \in mustown : Ev.owner[i]
\* The model without the dependencies that buffers have disclaimed.
C == [i \in 1..4 |-> Claim(buf[i], own[i])]
Made == IF Heap THEN {Ev.i} ELSE {}
TNext ==
  \/ Is("begin") /\ Begin(Ev.kind) /\ Matches(1..4)
  \/ Is("create") /\ Create(C, Ev.i, Ev.v) /\ Matches(Made)
  \/ Is("uninit") /\ Uninit(C, Ev.i, Ev.n) /\ Matches({})
  \/ Is("build") /\ Build(C, Ev.i, Ev.max, Ev.steps, Ev.how, Ev.n) /\ Matches(Made)
  \/ Is("reshuffle") /\ Reshuffle(C, Ev.i, Ev.j, Ev.max, Ev.def, Ev.steps, Ev.how, Ev.n) /\ Matches({})
  \/ Is("slice") /\ Slice(C, Ev.i, Ev.j, Ev.off, Ev.n) /\ Matches(IF own[Ev.j] THEN {Ev.i} ELSE {})
  \/ Is("shallow") /\ Copy(C, Ev.i, Ev.j) /\ Matches({})
  \/ Is("copy") /\ Copy(C, Ev.i, Ev.j) /\ Matches(IF own[Ev.j] THEN {Ev.i} ELSE {})
  \/ Is("deep") /\ Deep(C, Ev.i, Ev.j) /\ Matches(Made)
  \/ Is("owned") /\ Deep(C, Ev.i, Ev.j) /\ Matches({Ev.i})
  \/ Is("wrap") /\ Wrap(C, Ev.i, Ev.x, Ev.v) /\ Matches({})
  \/ Is("scribble") /\ Scribble(C, Ev.x) /\ Matches({})
  \/ Is("reset") /\ Own(C) /\ Matches(1..4)
  \/ AtEnd /\ UNCHANGED vars
TSpec == (SessionInit /\ BInit /\ own = <<TRUE, TRUE, TRUE, TRUE>>) /\ [][TNext]_vars
=============================================================================
