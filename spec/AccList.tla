------------------------------- MODULE AccList -------------------------------
(* C10. An accessor is [name, d, lam, inc]: given name (<<>> = not given),   *)
(* default name (<<>> = none), lines of its body, set of headers.  The canonical *)
(* list is a function of the SET of (name, accessor) pairs.                   *)
EXTENDS Text

QuoteC == 34
MinOf(a, b) == IF a < b THEN a ELSE b
Flatten(parts) == Cat(parts)
\* The header as written in the include line.
HdrText(h) ==
  IF /\ Len(h) >= 1
     /\ \/ h[1] = 60 /\ h[Len(h)] = 62
        \/ h[1] = QuoteC /\ h[Len(h)] = QuoteC
  THEN h ELSE <<QuoteC>> \o h \o <<QuoteC>>
IncLine(h) == Cp("#include ") \o HdrText(h)

Pretty(lines) == Join(Map(RStrip, SelectSeq(lines, LAMBDA x : ~Blank(x))), <<NL>>)

\* What the accessor is: its default name, text and includes.
\* An accessor of a proto path (pp # <<>>) is what its path, type and default
\* value make it; any other one is its default name, text and includes.
Content(a) ==
  IF a.pp # <<>>
  THEN [d |-> <<>>, lam |-> <<>>, inc |-> {}, pp |-> a.pp, ty |-> a.ty, df |-> a.df]
  ELSE [d |-> a.d, lam |-> Pretty(a.lam), inc |-> {IncLine(h) : h \in Range1(a.inc)},
        pp |-> <<>>, ty |-> <<>>, df |-> <<>>]
Nameless(a) == a.name = <<>> /\ a.d = <<>>
EffName(a) == IF a.name # <<>> THEN a.name ELSE a.d

Pairs(acc) == {<<EffName(acc[i]), Content(acc[i])>> : i \in 1..Len(acc)}
NamesOf(acc) == {EffName(acc[i]) : i \in 1..Len(acc)}
Conflicts(acc) == {n \in NamesOf(acc) :
                   Cardinality({p[2] : p \in {q \in Pairs(acc) : q[1] = n}}) > 1}
Rejected(acc) == IF \E i \in 1..Len(acc) : Nameless(acc[i]) THEN TRUE ELSE Conflicts(acc) # {}

\* The list: every name once, sorted, with its accessor.
Canon(acc) ==
  LET P == Pairs(acc) IN
  [i \in 1..Cardinality(NamesOf(acc)) |->
   LET n == SortText(NamesOf(acc))[i] IN
   [name |-> n, c |-> (CHOOSE p \in P : p[1] = n)[2]]]

Includes(acc) == SortText(UNION {p[2].inc : p \in Pairs(acc)})

\* Chunks of max elements (the last may be shorter); one empty chunk for <<>>.
Chunks(s, max) ==
  IF s = <<>> THEN << <<>> >>
  ELSE LET n == (Len(s) + max - 1) \div max IN
       [i \in 1..n |-> SubSeq(s, (i - 1) * max + 1, MinOf(i * max, Len(s)))]

\* At most n non-empty shards whose sizes differ by at most one.
EvenSplit(s, n, parts) ==
  IF n <= 1 THEN parts = <<s>>
  ELSE /\ Flatten(parts) = s
       /\ Len(parts) <= n
       /\ \A i \in 1..Len(parts) : parts[i] # <<>>
       /\ \A i, j \in 1..Len(parts) : Len(parts[i]) - Len(parts[j]) \in -1..1
       /\ Len(parts) = MinOf(n, Len(s))
==============================================================================
