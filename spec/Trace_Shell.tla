----------------------------- MODULE Trace_Shell -----------------------------
EXTENDS TraceBase, Shell

Parts(out) == out
OkEsc(e) ==
  /\ e.ok /\ Len(e.esc) = Len(e.ss)
  /\ \A i \in 1..Len(e.ss) :
       LET a == Arrives(e.esc[i]) IN
       /\ WellFormed(e.ss[i])
       /\ a.ok /\ a.out = Wanted(e.ss[i], e.wo)
       /\ e.run => ~a.exp
  /\ e.run => e.real = [i \in 1..Len(e.ss) |-> Wanted(e.ss[i], e.wo)]
\* Texts with an expanding dollar: they must arrive as well.
OkDollar(e) == OkEsc(e)
U(v) == IF v.b THEN v.s ELSE Cat([i \in 1..Len(v.s) |->
          LET c == v.s[i] IN
          IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>])
OkCesc(e) == /\ Len(e.out) = Len(e.vs)
             /\ \A i \in 1..Len(e.vs) : CBytes(e.out[i]) = U(e.vs[i])
OkIdent(e) ==
  IF IsAscii(e.s)
  THEN LET w == AsIdent(e.s) IN
       IF w = <<>> \/ w[1] \in Digit THEN e.err = "ValueError" ELSE e.err = "" /\ e.out = w
  ELSE e.err = "" => /\ e.valid
                     /\ SelectSeq(e.out, LAMBDA c : c # 95) = e.alnum
OkPlain(e) ==
  IF e.key # "x" THEN e.err = "UndefinedError"
  ELSE LET K == {i \in 1..Len(e.l) : e.l[i] = e.stop}
           n == IF K = {} THEN Len(e.l) ELSE (CHOOSE i \in K : \A j \in K : i <= j) - 1 IN
       /\ e.err = ""
       /\ e.out = <<60>> \o e.a \o <<124>> \o e.x \o <<124>> \o Cat([i \in 1..n |-> Append(e.l[i], 44)]) \o <<62>>
Tildes == <<126, 126>>
OkWild(e) == LET p == Split(e.s, Tildes) IN
             IF Len(p) = 4 THEN e.err = "" /\ e.out = p ELSE e.err = "ValueError"
Base1(s) == LET P == Split(s, <<47>>) IN P[Len(P)]

Ok(e) == CASE e.op = "esc" -> OkEsc(e)
           [] e.op = "dollar" -> OkDollar(e)
           [] e.op = "cesc" -> OkCesc(e)
           [] e.op = "ident" -> OkIdent(e)
           [] e.op = "base" -> e.out = Base1(e.s)
           [] e.op = "plain" -> OkPlain(e)
           [] e.op = "wrap" -> e.out = Wrapped(e.s, e.wrap)
           [] e.op = "wild" -> OkWild(e)
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
==============================================================================
