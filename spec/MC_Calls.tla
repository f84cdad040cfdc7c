------------------------------- MODULE MC_Calls ------------------------------
(* Laws of merging and dependency collection over small declared values, and  *)
(* of removing shared prefixes.                                               *)
EXTENDS Calls
CONSTANT N
D(ps) == [t |-> "d", k |-> [i \in 1..Len(ps) |-> ps[i][1]], x |-> [i \in 1..Len(ps) |-> [t |-> "i", i |-> ps[i][2]]]]
M(x) == [t |-> "c", fn |-> "merge", x |-> x, k |-> <<>>, kx |-> <<>>, deps |-> <<>>, data |-> <<>>]
S(d, n) == [t |-> "c", fn |-> "same", x |-> <<d>>, k |-> <<>>, kx |-> <<>>, deps |-> <<Cp(n)>>, data |-> <<>>]
Keys == {<<97>>, <<98>>}
Ds == {D(<<>>)} \cup {D(<< <<k, v>> >>) : k \in Keys, v \in {<<48>>, <<49>>}}
        \cup {D(<< <<<<97>>, v>>, <<<<98>>, w>> >>) : v \in {<<48>>, <<49>>}, w \in {<<48>>, <<49>>}}
Fn(ps) == [k \in {ps[i][1] : i \in 1..Len(ps)} |-> LastOf(ps, k)]
Ws == {<<>>, <<97>>, <<97, 98>>, <<98>>, <<97, 97>>}
VARIABLES a, b, c, w
Init == a \in Ds /\ b \in Ds /\ c \in Ds /\ w = <<>>
Next == Len(w) < N /\ \E x \in Ws : w' = Append(w, x) /\ UNCHANGED <<a, b, c>>
X == S(a, "x")
Y == S(b, "y")
Z == S(c, "z")
Laws ==
  /\ w = <<>> =>
     /\ Fn(Pairs(M(<<X, Y, Z>>))) = Fn(Pairs(M(<<M(<<X, Y>>), Z>>)))
     /\ Fn(Pairs(M(<<X, Y, Z>>))) = Fn(Pairs(M(<<X, M(<<Y, Z>>)>>)))
     /\ \A k \in DOMAIN Fn(Pairs(Z)) : Fn(Pairs(M(<<X, Y, Z>>)))[k] = Fn(Pairs(Z))[k]
     /\ Deps(M(<<X, M(<<Y, Z>>)>>)) = {Cp("x"), Cp("y"), Cp("z"), UtilsDep}
  /\ a = D(<<>>) /\ b = a /\ c = a =>   \* what is removed is recovered from the previous text
     \A i \in 2..Len(w) : \E k \in 0..Len(w[i - 1]) :
        w[i] = SubSeq(w[i - 1], 1, k) \o Trimmed(w)[i] 
==============================================================================
