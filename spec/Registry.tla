------------------------------ MODULE Registry ------------------------------
(* The QExpr operator registry: regs is the set of accepted registrations       *)
(* [name, ins, out, prio, id]; fams maps family names to ids.  Names are        *)
(* sequences of character codes.                                                *)
EXTENDS Casts
VARIABLES regs, fams,
          tried   \* names of rejected registrations: such a name may stay reserved for single operators
rvars == <<regs, fams, tried>>
RInit == regs = {} /\ fams = {} /\ tried = {}

\* Dot-separated identifiers.
Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
Digit(c) == c >= 48 /\ c <= 57
ValidName(n) ==
  /\ n # <<>>
  /\ \A i \in 1..Len(n) :
       \/ Letter(n[i])
       \/ Digit(n[i]) /\ i > 1 /\ n[i - 1] # 46
       \/ n[i] = 46 /\ i > 1 /\ i < Len(n) /\ n[i - 1] # 46
Priorities == {0, 1}

CanReg(n, ins, prio) ==
  /\ ValidName(n)
  /\ prio \in Priorities
  /\ ~\E f \in fams : f.name = n
  /\ ~\E r \in regs : r.name = n /\ r.ins = ins /\ r.prio = prio
Reg(n, ins, out, prio, id) ==
  /\ fams' = fams
  /\ tried' = IF CanReg(n, ins, prio) THEN tried ELSE tried \cup {n}
  /\ regs' = IF CanReg(n, ins, prio)
             THEN regs \cup {[name |-> n, ins |-> ins, out |-> out, prio |-> prio, id |-> id]} ELSE regs
CanFam(n) == ValidName(n) /\ (~\E f \in fams : f.name = n) /\ (~\E r \in regs : r.name = n)
Fam(n, id, ok) ==
  /\ regs' = regs /\ tried' = tried
  /\ (ok => CanFam(n)) /\ (CanFam(n) /\ n \notin tried => ok)
  /\ fams' = IF ok THEN fams \cup {[name |-> n, id |-> id]} ELSE fams
Names == {r.name : r \in regs} \cup {f.name : f \in fams}

\* For every input list the registration of the highest priority counts.
Current(n) == {r \in regs : r.name = n /\ ~\E q \in regs : q.name = n /\ q.ins = r.ins /\ q.prio > r.prio}
CanAll(from, to) == Len(from) = Len(to) /\ \A i \in 1..Len(from) : Can(from[i], to[i], TRUE)
Pick(S) == CHOOSE r \in S : TRUE
\* The operator found, -1 if none (or no best one).
Lookup(n, ins, out) ==
  IF \E f \in fams : f.name = n
  THEN IF out = [s |-> "f32", k |-> 0] THEN Pick({f \in fams : f.name = n}).id ELSE -1
  ELSE LET cur == Current(n)
           raw == {r \in cur : r.ins = ins /\ r.out = out}
           cand == {r \in cur : r.out = Decay(out)}
           exact == {r \in cand : r.ins = DecayL(ins)}
           fit == {r \in cand : CanAll(ins, r.ins)}
           least == {r \in fit : \A q \in fit : CanAll(r.ins, q.ins)}
       IN IF raw # {} THEN Pick(raw).id
          ELSE IF exact # {} THEN Pick(exact).id
          ELSE IF least # {} THEN Pick(least).id
          ELSE -1
\* The types a found operator is bound with.
Sig(n, id) == Pick({r \in regs : r.name = n /\ r.id = id})

TypeOK == \A r, q \in regs : r.name = q.name /\ r.ins = q.ins /\ r.prio = q.prio => r = q
Disjoint == \A r \in regs : ~\E f \in fams : f.name = r.name
\* Whatever was accepted is found under its own types unless overridden or of a decaying type.
Findable == \A r \in regs : r.name \notin {f.name : f \in fams} =>
              \E q \in Current(r.name) : q.ins = r.ins /\ Lookup(q.name, q.ins, q.out) = q.id
=============================================================================
