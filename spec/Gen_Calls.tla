------------------------------ MODULE Gen_Calls ------------------------------
(* Every declared value of depth two over a small alphabet.                   *)
EXTENDS Calls, Json
C(fn, x, k, kx, deps, data) == [t |-> "c", fn |-> fn, x |-> x, k |-> k, kx |-> kx, deps |-> deps, data |-> data]
Dp(s) == <<Cp(s)>>
Leaf == {[t |-> "i", i |-> Cp("7")], [t |-> "s", s |-> Cp("a\"b")]}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Grow(S, tag) ==
  Leaf \cup {[t |-> "l", x |-> s] : s \in Seqs(S, 2)}
       \cup {[t |-> "d", k |-> Dp("k"), x |-> <<a>>] : a \in S}
       \cup {C("rec", x, IF kx = <<>> THEN <<>> ELSE Dp("z"), kx, Dp(tag \o "q"), Dp(tag \o "f")) : x \in Seqs(S, 1), kx \in Seqs(S, 1)}
       \cup {C("same", <<a>>, <<>>, <<>>, Dp("s" \o tag), <<>>) : a \in S}
       \cup {C("quote", <<a>>, <<>>, <<>>, Dp("t" \o tag), Dp("m")) : a \in S}
VARIABLE t
Init == t \in Grow(Grow(Leaf, "b"), "a")
Next == FALSE /\ t' = t
Emit == PrintT(ToJson(t))
==============================================================================
