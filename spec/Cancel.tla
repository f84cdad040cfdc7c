------------------------------- MODULE Cancel -------------------------------
(* Cancellation contexts, per-thread stacks of scopes, and subscriptions.       *)
(*   st[c]     0 while not requested, then the first reason, for good           *)
(*   own       contexts the user still holds                                    *)
(*   stack[t]  contexts of the open scopes of thread t (0 = a scope without one) *)
(*   reg       live registrations [id, c, act, arg]; hnd[h] the one a handle has *)
(*   href[h]   the context a handle keeps alive                                 *)
(*   called    ids of the callbacks invoked so far                              *)
(* act: what the callback does: "no", "cascade" (cancels context arg), "sub"    *)
(* (subscribes callback arg to the same context), "again" (cancels the same     *)
(* context), "drop" (destroys handle arg).                                      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES st, own, stack, reg, hnd, href, called
cvars == <<st, own, stack, reg, hnd, href, called>>
Threads == 1..3
Handles == 1..4
Cascade == 7

ToSet(s) == {s[i] : i \in 1..Len(s)}
CInit == /\ st = <<>> /\ own = {} /\ stack = [t \in Threads |-> <<>>]
         /\ reg = {} /\ hnd = [h \in Handles |-> 0] /\ href = [h \in Handles |-> 0] /\ called = {}

LiveCtx(o, sk, hr) == o \cup (UNION {ToSet(sk[t]) : t \in Threads} \ {0}) \cup ({hr[h] : h \in Handles} \ {0})
\* A registration lives as long as its context.
Keep(o, sk, hr, rg) == {x \in rg : x.c \in LiveCtx(o, sk, hr)}
CurOf(sk, t) == IF sk[t] = <<>> THEN 0 ELSE sk[t][Len(sk[t])]

Settle(s, o, sk, rg, hn, hr, cl) ==
  /\ st' = s /\ own' = o /\ stack' = sk /\ hnd' = hn /\ href' = hr /\ called' = cl
  /\ reg' = Keep(o, sk, hr, rg)

\* Everything that follows from the requests in s: the callbacks that run, their effects.
RECURSIVE Spread(_, _, _, _, _)
Spread(s, rg, hn, cl, opt) ==
  LET run == {x \in rg : s[x.c] # 0 /\ x.id \notin cl}
      s2 == [c \in 1..Len(s) |-> IF s[c] = 0 /\ \E x \in run : x.act = "cascade" /\ x.arg = c THEN Cascade ELSE s[c]]
      dh == {x.arg : x \in {y \in run : y.act = "drop"}}
      dropped == {x \in rg : \E h \in dh : hn[h] = x.id}
  IN IF run = {} THEN [s |-> s, rg |-> {x \in rg : s[x.c] = 0 /\ x.id \notin opt}, hn |-> hn, cl |-> cl, opt |-> opt, dh |-> {}]
     ELSE LET r == Spread(s2, rg,
                          [h \in Handles |-> IF h \in dh THEN 0 ELSE hn[h]],
                          cl \cup {x.id : x \in run} \cup {x.arg : x \in {y \in run : y.act = "sub"}},
                          opt \cup {x.id : x \in dropped})
          IN [r EXCEPT !.dh = @ \cup dh]

Make(c) == c = Len(st) + 1 /\ Settle(Append(st, 0), own \cup {c}, stack, reg, hnd, href, called)
Drop(c) == c \in own /\ Settle(st, own \ {c}, stack, reg, hnd, href, called)
\* opt: callbacks whose handle was destroyed by another callback; they may have
\* been scheduled already, so they may or may not run.  (Such callbacks do nothing
\* themselves, which keeps the rest determined.)
Cancel(c, r) ==
  /\ c \in own /\ r # 0
  /\ LET s == IF st[c] = 0 THEN [st EXCEPT ![c] = r] ELSE st
         e == Spread(s, reg, hnd, called, {})
     IN \E miss \in SUBSET (e.opt \ called) :
          Settle(e.s, own, stack, e.rg, e.hn, [h \in Handles |-> IF h \in e.dh THEN 0 ELSE href[h]], e.cl \ miss)
\* The callback runs at once when the context has been cancelled.
Sub(c, h, id, act, arg) ==
  /\ c \in own /\ hnd[h] = 0 /\ href[h] = 0
  /\ IF st[c] # 0
     THEN LET e == Spread(st, reg \cup {[id |-> id, c |-> c, act |-> act, arg |-> arg]}, hnd, called, {})
          IN \E miss \in SUBSET (e.opt \ (called \cup {id})) :
               Settle(e.s, own, stack, e.rg, e.hn, [g \in Handles |-> IF g \in e.dh THEN 0 ELSE href[g]], e.cl \ miss)
     ELSE Settle(st, own, stack, reg \cup {[id |-> id, c |-> c, act |-> act, arg |-> arg]},
                 [hnd EXCEPT ![h] = id], [href EXCEPT ![h] = c], called)
Unsub(h) == Settle(st, own, stack, {x \in reg : x.id # hnd[h]}, [hnd EXCEPT ![h] = 0], [href EXCEPT ![h] = 0], called)
Detach(h) == Settle(st, own, stack, reg, [hnd EXCEPT ![h] = 0], [href EXCEPT ![h] = 0], called)
\* Moving into an empty handle.
Move(h, g) == /\ h # g /\ hnd[h] = 0 /\ href[h] = 0
              /\ Settle(st, own, stack, reg, [hnd EXCEPT ![h] = hnd[g], ![g] = 0],
                        [href EXCEPT ![h] = href[g], ![g] = 0], called)
Push(t, c) == Settle(st, own, [stack EXCEPT ![t] = Append(@, c)], reg, hnd, href, called)
\* A scope with a context of its own.
PushNew(t) == Settle(Append(st, 0), own, [stack EXCEPT ![t] = Append(@, Len(st) + 1)], reg, hnd, href, called)
\* The user takes a reference to the current context.
Take(t) == Settle(st, own \cup ({CurOf(stack, t)} \ {0}), stack, reg, hnd, href, called)
Pop(t) == stack[t] # <<>> /\ Settle(st, own, [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)], reg, hnd, href, called)

\* What a check in thread t reports: 0 or the reason.
Check(s, sk, t) == IF CurOf(sk, t) = 0 THEN 0 ELSE s[CurOf(sk, t)]

Sticky == [][\A c \in 1..Len(st) : st[c] # 0 => st'[c] = st[c]]_cvars
Once == [][called \subseteq called']_cvars
NoEarlyCall == \A x \in reg : x.id \notin called /\ st[x.c] = 0
HandleOwns == \A h \in Handles : hnd[h] # 0 => href[h] # 0
=============================================================================
