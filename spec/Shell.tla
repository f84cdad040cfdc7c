-------------------------------- MODULE Shell --------------------------------
(* C15. Text on its way through a build command: escaped in a rule, make       *)
(* variables expanded by the build tool, read by the shell inside double      *)
(* quotes; and text written as the contents of a C string literal.            *)
EXTENDS Text

Dollar == 36
Quote == 34
Back == 92
Tick == 96

\* ---- the build tool: "$$" is a dollar, references become paths.
Refs == {Cp("$(location "), Cp("$(execpath "), Cp("$(rootpath ")}
RefAt(s, i) == {p \in Refs : StartsWith(SubSeq(s, i, Len(s)), p)}
PathOf(label) == Cp("/p/") \o label
OutPath == PathOf(Cp("o.out"))
SrcPath == PathOf(Cp("s.src"))
Close(s, i) == Find(s, <<41>>, i)

RECURSIVE MakeFrom(_, _)
MakeFrom(s, i) ==     \* [ok, out]
  IF i > Len(s) THEN [ok |-> TRUE, out |-> <<>>]
  ELSE IF s[i] # Dollar THEN
       LET r == MakeFrom(s, i + 1) IN [ok |-> r.ok, out |-> <<s[i]>> \o r.out]
  ELSE IF i < Len(s) /\ s[i + 1] = Dollar THEN
       LET r == MakeFrom(s, i + 2) IN [ok |-> r.ok, out |-> <<Dollar>> \o r.out]
  ELSE IF i < Len(s) /\ s[i + 1] \in {64, 60} THEN
       LET r == MakeFrom(s, i + 2) IN
       [ok |-> r.ok, out |-> (IF s[i + 1] = 64 THEN OutPath ELSE SrcPath) \o r.out]
  ELSE IF RefAt(s, i) # {} /\ Close(s, i) # 0 THEN
       LET p == CHOOSE p \in RefAt(s, i) : TRUE
           j == Close(s, i)
           r == MakeFrom(s, j + 1) IN
       [ok |-> r.ok, out |-> PathOf(SubSeq(s, i + Len(p), j - 1)) \o r.out]
  ELSE [ok |-> FALSE, out |-> <<>>]
Make(s) == MakeFrom(s, 1)

\* ---- the shell inside double quotes. exp: it would expand something.
Starts == Ident \cup {123, 40, 64, 42, 35, 63, 36, 33, 45, 91}
RECURSIVE BashFrom(_, _)
BashFrom(s, i) ==     \* [ok, exp, out]: out keeps expansions as written
  IF i > Len(s) THEN [ok |-> TRUE, exp |-> FALSE, out |-> <<>>]
  ELSE IF s[i] = Quote THEN [ok |-> FALSE, exp |-> FALSE, out |-> <<>>]
  ELSE IF s[i] = Back THEN
       IF i = Len(s) THEN [ok |-> FALSE, exp |-> FALSE, out |-> <<>>]
       ELSE LET r == BashFrom(s, i + 2)
                c == s[i + 1] IN
            [ok |-> r.ok, exp |-> r.exp,
             out |-> (IF c \in {Dollar, Quote, Back, Tick} THEN <<c>>
                      ELSE IF c = NL THEN <<>> ELSE <<Back, c>>) \o r.out]
  ELSE LET r == BashFrom(s, i + 1) IN
       [ok |-> r.ok, out |-> <<s[i]>> \o r.out,
        exp |-> \/ r.exp \/ s[i] = Tick
                \/ (s[i] = Dollar /\ i < Len(s) /\ s[i + 1] \in Starts)]
Bash(s) == BashFrom(s, 1)

Arrives(esc) ==
  LET m == Make(esc)
      b == Bash(m.out) IN
  IF ~m.ok THEN [ok |-> FALSE, exp |-> FALSE, out |-> <<>>] ELSE b

\* What should arrive: the text; with make variables, references expanded.
RECURSIVE WantedFrom(_, _)
WantedFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] # Dollar THEN <<s[i]>> \o WantedFrom(s, i + 1)
  ELSE IF i < Len(s) /\ s[i + 1] \in {64, 60} THEN
       (IF s[i + 1] = 64 THEN OutPath ELSE SrcPath) \o WantedFrom(s, i + 2)
  ELSE IF RefAt(s, i) # {} THEN
       LET p == CHOOSE p \in RefAt(s, i) : TRUE
           j == Close(s, i) IN
       PathOf(SubSeq(s, i + Len(p), j - 1)) \o WantedFrom(s, j + 1)
  ELSE <<s[i]>> \o WantedFrom(s, i + 1)
Wanted(s, wo) == IF wo THEN WantedFrom(s, 1) ELSE s
WellFormed(s) == \A i \in 1..Len(s) : RefAt(s, i) # {} => Close(s, i) # 0

\* ---- the escaping itself, as an algorithm (strong: dollars are protected
\* from the shell as well).
EscC(c, strong) == CASE c \in {Back, Quote, Tick} -> <<Back, c>>
                     [] c = Dollar -> (IF strong THEN <<Back>> ELSE <<>>) \o <<Dollar, Dollar>>
                     [] OTHER -> <<c>>
Esc(s, strong) == Cat([i \in 1..Len(s) |-> EscC(s[i], strong)])
Lead(strong) == (IF strong THEN <<Back>> ELSE <<>>) \o <<Dollar>>
EscVars(s, strong) ==
  LET L == Lead(strong)
      a == Replace(Esc(s, strong), L \o Cp("$(location"), Cp("$(location"))
      b == Replace(a, L \o Cp("$(execpath"), Cp("$(execpath"))
      c == Replace(b, L \o Cp("$(rootpath"), Cp("$(rootpath")) IN
  Replace(Replace(c, L \o Cp("$@"), Cp("$@")), L \o Cp("$<"), Cp("$<"))

\* ---- contents of a C string literal -> bytes; <<-1>> if it is not one.
HexV(c) == IF c \in Digit THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
Simple == [c \in {110, 116, 114, 34, 92, 39, 63, 97, 98, 102, 118} |->
           CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] c = 97 -> 7 [] c = 98 -> 8
             [] c = 102 -> 12 [] c = 118 -> 11 [] OTHER -> c]
RECURSIVE HexRun(_, _), Value(_, _, _)
HexRun(s, i) == IF i > Len(s) \/ HexV(s[i]) = -1 THEN 0 ELSE 1 + HexRun(s, i + 1)
Value(s, i, n) == IF n = 0 THEN 0 ELSE 16 * Value(s, i, n - 1) + HexV(s[i + n - 1])
OctRun(s, i) == LET R == {n \in 0..3 : i + n - 1 <= Len(s) /\ \A k \in 0..(n - 1) : s[i + k] \in 48..55} IN
                CHOOSE n \in R : \A m \in R : m <= n
RECURSIVE OctValue(_, _, _)
OctValue(s, i, n) == IF n = 0 THEN 0 ELSE 8 * OctValue(s, i, n - 1) + (s[i + n - 1] - 48)
RECURSIVE CLitFrom(_, _)
CLitFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] \in {Quote, NL, 13} THEN <<-1>>
  ELSE IF s[i] # Back THEN
       (IF s[i] < 128 THEN <<s[i]>> ELSE
        IF s[i] < 2048 THEN <<192 + s[i] \div 64, 128 + (s[i] % 64)>>
        ELSE IF s[i] < 65536 THEN <<224 + s[i] \div 4096, 128 + ((s[i] \div 64) % 64), 128 + (s[i] % 64)>>
        ELSE <<240 + s[i] \div 262144, 128 + ((s[i] \div 4096) % 64), 128 + ((s[i] \div 64) % 64), 128 + (s[i] % 64)>>)
       \o CLitFrom(s, i + 1)
  ELSE IF i = Len(s) THEN <<-1>>
  ELSE IF s[i + 1] = 120 THEN
       LET n == HexRun(s, i + 2) IN
       IF n = 0 \/ n > 4 \/ Value(s, i + 2, n) > 255 THEN <<-1>>
       ELSE <<Value(s, i + 2, n)>> \o CLitFrom(s, i + 2 + n)
  ELSE IF s[i + 1] \in 48..55 THEN
       LET n == OctRun(s, i + 1) IN
       IF OctValue(s, i + 1, n) > 255 THEN <<-1>> ELSE <<OctValue(s, i + 1, n)>> \o CLitFrom(s, i + 1 + n)
  ELSE IF s[i + 1] \in DOMAIN Simple THEN <<Simple[s[i + 1]]>> \o CLitFrom(s, i + 2)
  ELSE <<-1>>
CBytes(s) == CLitFrom(s, 1)

\* ---- identifiers: runs of letters and digits joined by '_'.
RECURSIVE Runs(_)
Runs(s) ==
  LET K == {i \in 1..Len(s) : s[i] \in Alnum} IN
  IF K = {} THEN <<>>
  ELSE LET a == CHOOSE i \in K : \A j \in K : i <= j
           E == {i \in a..Len(s) : s[i] \notin Alnum}
           b == IF E = {} THEN Len(s) + 1 ELSE CHOOSE i \in E : \A j \in E : i <= j IN
       <<SubSeq(s, a, b - 1)>> \o Runs(SubSeq(s, b, Len(s)))
AsIdent(s) == Join(Runs(s), <<95>>)
IsAscii(s) == \A i \in 1..Len(s) : s[i] < 128

\* ---- wrapping of a code block
DropNL(s) == LET K == {i \in 1..Len(s) : s[i] # NL} IN
             IF K = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in K : \A j \in K : i <= j, Len(s))
Indent(l) == IF l = <<>> THEN l ELSE <<32, 32>> \o l
Wrapped(s, wrap) ==
  IF ~wrap THEN DropNL(s)
  ELSE Cp("[&]() {") \o <<NL>> \o Join(Map(Indent, Split(DropNL(s), <<NL>>)), <<NL>>) \o <<NL>> \o Cp("}();")
==============================================================================
