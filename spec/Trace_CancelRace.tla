-------------------------- MODULE Trace_CancelRace --------------------------
(* Unsynchronized threads on one context.  Each log entry of a thread is        *)
(* [k, v]: "get" / "flag" / "check" (the reason observed or 0), "cancel" (after *)
(* its own request r), "sub" (id), "unsub" (id).  There is one reason, some     *)
(* thread asked for it, everybody sees either nothing or that reason, never     *)
(* nothing again, and not nothing after its own request; every callback that    *)
(* was not unsubscribed is invoked exactly once.                                *)
EXTENDS TraceBase, FiniteSets
ToSet(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
LogOk(g, r) ==
  \A i \in 1..Len(g) :
    LET x == g[i]
        before == \E j \in 1..(i - 1) : g[j].k = "cancel" \/ (g[j].k \in {"get", "check", "flag"} /\ g[j].v # 0)
    IN /\ x.k \in {"get", "check"} => x.v \in {0, r} /\ (before => x.v = r)
       /\ x.k = "flag" => x.v \in {0, 1}
       /\ x.k = "flag" /\ before => x.v = 1
Ok(e) ==
  LET asked == UNION {{e.log[t][i].v : i \in {j \in 1..Len(e.log[t]) : e.log[t][j].k = "cancel"}} : t \in 1..Len(e.log)}
      subs == UNION {{e.log[t][i].v : i \in {j \in 1..Len(e.log[t]) : e.log[t][j].k = "sub"}} : t \in 1..Len(e.log)}
      gone == UNION {{e.log[t][i].v : i \in {j \in 1..Len(e.log[t]) : e.log[t][j].k = "unsub"}} : t \in 1..Len(e.log)}
  IN /\ IF asked = {} THEN e.final = 0 ELSE e.final \in asked
     /\ \A t \in 1..Len(e.log) : LogOk(e.log[t], e.final)
     /\ \A id \in subs : LET n == Count(e.called, id) IN
          IF id \in gone THEN n <= 1 ELSE n = (IF asked = {} THEN 0 ELSE 1)
     /\ ToSet(e.called) \subseteq subs
     /\ asked # {} => e.left = 0
     /\ e.leak = 0
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
