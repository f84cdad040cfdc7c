----------------------------- MODULE MC_Loaders -----------------------------
(* Laws of composition over all small loaders.                                 *)
EXTENDS Loaders, TLC
CONSTANTS Deep
F(nm, t, f) == [n |-> nm, t |-> t, f |-> f]
Leaf(k, fs) == [k |-> k, fs |-> fs]
Leaves == {Leaf("acc", <<>>), Leaf("acc", <<F("a", "i", 1)>>), Leaf("acc", <<F("a", "f", 2), F("b", "i", 3)>>), Leaf("acc", <<F("a", "i", 1), F("a", "f", 2)>>),
           Leaf("tuple", <<F("a", "i", 0), F("b", "f", 0)>>), Leaf("span", <<F("b", "i", 0), F("pa", "i", 0)>>),
           [k |-> "wild", pre |-> "p", suf |-> ""], [k |-> "cb", pre |-> "p", suf |-> "", fs |-> <<F("a", "f", 0)>>]}
Chain(s) == [k |-> "chain", subs |-> s]
Pre(p, n) == [k |-> "pre", pre |-> p, sub |-> n, kid |-> 1]
Filt(s, n) == [k |-> "filter", names |-> s, sub |-> n]
Wrap(n) == [k |-> "wrap", sub |-> n]
Level(s) == s \cup {Chain(<<x, y>>) : x, y \in s} \cup {Pre("p", x) : x \in s} \cup {Filt(<<"a", "pa">>, x) : x \in s}
Once == Level(Leaves)
All == IF Deep THEN Once \cup {Chain(<<x, y>>) : x \in Once, y \in Leaves} \cup {Pre("p", x) : x \in Once} \cup {Filt(<<"a", "pa">>, x) : x \in Once} ELSE Once
NamesAll == {"", "a", "b", "pa", "pb", "ppa"}
RECURSIVE In(_, _)
In(id, d) == [id |-> id, vec |-> 2, refs |-> <<>>, map |-> <<[k |-> "a", v |-> 500 + id]>>, kids |-> IF d = 0 THEN <<>> ELSE <<In(id + 1, d - 1)>>]
input == In(1, 4)
VARIABLES n, m, step
vars == <<n, m, step>>
Init == step = 0 /\ n \in All /\ m \in Leaves
Next == step = 0 /\ step' = 1 /\ UNCHANGED <<n, m>>
Spec == Init /\ [][Next]_vars
Know(x) == {nm \in NamesAll : TypeOf(x, nm) # ""}
Same(x, y) ==
  /\ \A nm \in NamesAll : TypeOf(x, nm) = TypeOf(y, nm)
  /\ \A s \in SUBSET Know(x) : /\ CanBind(x, s) = CanBind(y, s)
                               /\ CanBind(x, s) => /\ CanLoad(x, s, input) = CanLoad(y, s, input)
                                                   /\ CanLoad(x, s, input) => \A nm \in s : ValueOf(x, nm, input) = ValueOf(y, nm, input)
Inv == step = 0 /\ Made(n) /\ Made(m) =>
  /\ Same(n, Wrap(n)) /\ Same(n, Chain(<<n>>)) /\ Same(n, Chain(<<n, n>>)) /\ Same(n, Chain(<<Leaf("acc", <<>>), n>>))
  /\ Same(Filt(<<"a", "b">>, Filt(<<"b", "pa">>, n)), Filt(<<"b">>, n))
  /\ Same(Pre("p", Pre("p", n)), [Pre("pp", n) EXCEPT !.sub = [Pre("", n) EXCEPT !.kid = 1]])
  /\ Same(Chain(<<n, Chain(<<m, n>>)>>), Chain(<<n, m>>))
  /\ Same(Chain(<<Chain(<<m, n>>), m>>), Chain(<<m, n>>))
  /\ Same(Pre("p", Chain(<<n, m>>)), Chain(<<Pre("p", n), Pre("p", m)>>))
  \* what the first provides is not taken from the second
  /\ \A nm \in Know(n) : TypeOf(Chain(<<n, m>>), nm) = TypeOf(n, nm)
  \* what can be bound and loaded can be loaded in parts
  /\ (~\E x \in {n} : "tuple" \in {x.k}) => \A s \in SUBSET Know(n) : \A u \in SUBSET s :
        CanLoad(n, s, input) => CanLoad(n, u, input)
============================================================================
