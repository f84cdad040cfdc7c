-------------------------------- MODULE Text --------------------------------
(* Text as sequences of code points: order, joining, splitting, searching.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiCode == [c \in {SubSeq(Ascii, i, i) : i \in 1..95} |->
              31 + (CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = c)]
\* Code points of a literal ("\n" and "\t" are not in the printable table).
Cp(s) == [i \in 1..Len(s) |-> AsciiCode[SubSeq(s, i, i)]]

NL == 10
Upper == 65..90
Lower == 97..122
Digit == 48..57
Alpha == Upper \cup Lower
Alnum == Alpha \cup Digit
Ident == Alnum \cup {95}
\* Python's str.isspace.
Space == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760} \cup 8192..8202
         \cup {8232, 8233, 8239, 8287, 12288}

MinLen(a, b) == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)

\* Lexicographic order of code points.
Lt(a, b) ==
  LET m == MinLen(a, b)
      D == {i \in 1..m : a[i] # b[i]} IN
  IF D = {} THEN Len(a) < Len(b)
  ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN a[i] < b[i]

SortText(S) == SetToSortSeq(S, Lt)
IsSortedUnique(s) == \A i \in 1..(Len(s) - 1) : Lt(s[i], s[i + 1])

RECURSIVE JoinFrom(_, _, _)
JoinFrom(parts, sep, i) ==
  IF i > Len(parts) THEN <<>>
  ELSE IF i = Len(parts) THEN parts[i]
  ELSE parts[i] \o sep \o JoinFrom(parts, sep, i + 1)
Join(parts, sep) == JoinFrom(parts, sep, 1)
Cat(parts) == Join(parts, <<>>)

\* First position >= from where pat starts in s; 0 if none.
Find(s, pat, from) ==
  LET P == {i \in from..(Len(s) - Len(pat) + 1) :
            SubSeq(s, i, i + Len(pat) - 1) = pat} IN
  IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, sep, from) ==
  LET i == Find(s, sep, from) IN
  IF i = 0 THEN <<SubSeq(s, from, Len(s))>>
  ELSE <<SubSeq(s, from, i - 1)>> \o SplitFrom(s, sep, i + Len(sep))
Split(s, sep) == SplitFrom(s, sep, 1)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasText(s, p) == Find(s, p, 1) # 0

RStrip(s) ==
  LET K == {i \in 1..Len(s) : s[i] \notin Space} IN
  IF K = {} THEN <<>> ELSE SubSeq(s, 1, Max(K))
LStrip(s) ==
  LET K == {i \in 1..Len(s) : s[i] \notin Space} IN
  IF K = {} THEN <<>> ELSE SubSeq(s, Min(K), Len(s))
Strip(s) == LStrip(RStrip(s))
Blank(s) == \A i \in 1..Len(s) : s[i] \in Space

LowerC(c) == IF c \in Upper THEN c + 32 ELSE c
UpperC(c) == IF c \in Lower THEN c - 32 ELSE c
ToLower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]
ToUpper(s) == [i \in 1..Len(s) |-> UpperC(s[i])]

IsIdentifier(s) == /\ s # <<>>
                   /\ \A i \in 1..Len(s) : s[i] \in Ident
                   /\ s[1] \notin Digit

\* Replace every occurrence of pat (left to right, non overlapping).
Replace(s, pat, by) == Join(Split(s, pat), by)

\* Decimal text of a natural number.
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))

Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Range1(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
