--------------------------- MODULE Trace_Loaders ---------------------------
EXTENDS TraceBase, Loaders
Count(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Bag(s, t) == Len(s) = Len(t) /\ \A v \in Ran(s) : Count(s, v) = Count(t, v)
(* How often the function given to a chain is used: not for a single part.     *)
RECURSIVE Invokes(_, _)
RECURSIVE Sum(_, _, _)
Sum(n, names, i) ==
  IF i > Len(n.subs) THEN 0
  ELSE Sum(n, names, i + 1)
       + Invokes(n.subs[i], IF n.k = "chain" THEN Share(n, i, names) ELSE {name \in names : First(name) = n.keys[i]})
Invokes(n, names) ==
  CASE names = {} -> 0
    [] n.k = "chain" -> Sum(n, names, 1)
         + (IF n.inv # 0 /\ Cardinality({i \in 1..Len(n.subs) : Share(n, i, names) # {}}) > 1 THEN 1 ELSE 0)
    [] n.k = "dyn" -> Sum(n, names, 1)
    [] n.k \in {"filter", "wrap"} -> Invokes(n.sub, names)
    [] n.k = "pre" -> Invokes(n.sub, Stripped(n, names))
    [] OTHER -> 0
NamesOf(s) == [i \in 1..Len(s) |-> s[i].n]
Known(e) ==
  /\ e.types = [i \in 1..Len(e.queries) |-> TypeOf(e.n, e.queries[i])]
  /\ Bag(e.sug, Suggest(e.n))
(* The slots bound: those asked for, or with a partial binding those known.    *)
Asked(e) == IF e.partial THEN Supported(e.n, e.slots) ELSE e.slots
Loaded(e, in, r) ==
  LET names == Names(Asked(e)) IN
  IF ~CanLoad(e.n, names, in) THEN ~r.ok /\ r.intact
  ELSE LET calls == SelectSeq(NamesOf(Asked(e)), LAMBDA name : Calls(e.n, name, in)) IN
       /\ r.ok /\ r.intact /\ r.fac
       /\ \A i \in 1..Len(e.slots) :
            r.vals[i] = IF e.slots[i].n \in names THEN ValueOf(e.n, e.slots[i].n, in)
                        ELSE IF e.slots[i].t \in {"i", "f"} THEN -5 ELSE -9
       /\ Bag(r.calls, [i \in 1..Len(calls) |-> ValueOf(e.n, calls[i], in)])
       /\ r.inv = Invokes(e.n, names)
LoadOk(e) ==
  /\ e.made = Made(e.n)
  /\ e.made =>
       /\ Known(e)
       /\ e.all = \A i \in 1..Len(e.slots) : TypeOf(e.n, e.slots[i].n) # ""
       /\ e.partial => Bag(e.rest, SelectSeq(NamesOf(e.slots), LAMBDA name : TypeOf(e.n, name) = ""))
       /\ e.bound = Binds(e.n, Asked(e))
       /\ e.bound => \A i \in 1..Len(e.ins) : Loaded(e, e.ins[i], e.res[i])
ListenOk(e) ==
  /\ e.made = Made(e.n)
  /\ e.made =>
       /\ Known(e)
       /\ e.bound = Listens(e.n, Asked(e))
       /\ e.bound =>
            /\ e.some = (~e.partial \/ Asked(e) # <<>>)
            /\ e.some => \A i \in 1..Len(e.outs) :
                 e.res[i].ok /\ e.res[i].intact /\ e.res[i].heard = Heard(e.n, Asked(e), e.outs[i])
Ok(e) == IF e.op = "load" THEN LoadOk(e) ELSE ListenOk(e)
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
============================================================================
