------------------------------ MODULE PathName -------------------------------
(* Default names of paths; see Path for the steps.                            *)
EXTENDS Text

\* default name of the value a path denotes
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Slash(a, b) == IF a = <<47>> THEN a \o b ELSE a \o <<47>> \o b
RECURSIVE NameFrom(_, _)
NameFrom(n, es) ==
  IF es = <<>> THEN n
  ELSE LET e == es[1]
           m == CASE e.k \in {"reg", "rep", "st"} -> Slash(n, Cp(e.f))
                  [] e.k = "ext" -> Slash(n, Cp("Ext::") \o Cp(e.f))
                  [] e.k = "keys" -> Slash(Slash(n, Cp(e.f)), Cp("@key"))
                  [] e.k = "vals" -> Slash(Slash(n, Cp(e.f)), Cp("@value"))
                  [] e.k = "idx" -> Slash(n, Cp(e.f) \o <<91>> \o Digits(e.i) \o <<93>>)
                  [] e.k = "mapk" -> Slash(n, Cp(e.f) \o <<91, 34>> \o e.name \o <<34, 93>>)
                  [] e.k = "wild" -> Slash(n, Cp(e.f) \o <<91, 34, 37, 115, 34, 93>>)
                  [] e.k = "size" -> IF e.m.k = "root" THEN Slash(n, Cp("@size")) ELSE Slash(Slash(n, Cp(e.m.f)), Cp("@size"))
                  [] OTHER -> n
       IN  NameFrom(m, Tail(es))
NameOf(es) == NameFrom(<<47>>, es)
==============================================================================
