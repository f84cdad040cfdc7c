------------------------------- MODULE Loaders ------------------------------
(* Input loaders and slot listeners as trees.  A loader denotes a partial map   *)
(* from names to typed sources of values; binding selects some of the names.    *)
EXTENDS Integers, Sequences, FiniteSets
Ran(s) == {s[i] : i \in 1..Len(s)}
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
First(s) == SubSeq(s, 1, 1)
(* The key of a name under a pattern.                                           *)
Matches(n, name) == Len(name) >= Len(n.pre) + Len(n.suf) /\ StartsWith(name, n.pre) /\ EndsWith(name, n.suf)
Key(n, name) == SubSeq(name, Len(n.pre) + 1, Len(name) - Len(n.suf))

Fields(n) == {n.fs[i].n : i \in 1..Len(n.fs)}
Field(n, name) == CHOOSE i \in 1..Len(n.fs) : n.fs[i].n = name
Distinct(n) == Cardinality(Fields(n)) = Len(n.fs)
ByKey(n, name) == {i \in 1..Len(n.keys) : n.keys[i] = First(name)}

(* Whether the loader can be made.                                              *)
RECURSIVE Made(_)
Made(n) ==
  CASE n.k = "acc" -> Distinct(n)
    [] n.k = "tuple" -> Len(n.fs) = 2
    [] n.k \in {"chain", "dyn"} -> \A i \in 1..Len(n.subs) : Made(n.subs[i])
    [] n.k \in {"filter", "pre", "wrap"} -> Made(n.sub)
    [] OTHER -> TRUE
(* The type under which a name is provided, "" if it is not.                    *)
RECURSIVE TypeOf(_, _)
TypeOf(n, name) ==
  CASE n.k \in {"acc", "span", "tuple", "refs"} -> IF name \in Fields(n) THEN n.fs[Field(n, name)].t ELSE ""
    [] n.k = "wild" -> IF Matches(n, name) THEN "i" ELSE ""
    [] n.k = "cb" -> IF Matches(n, name) /\ Key(n, name) \in Fields(n) THEN n.fs[Field(n, Key(n, name))].t ELSE ""
    [] n.k = "chain" ->
         LET who == {i \in 1..Len(n.subs) : TypeOf(n.subs[i], name) # ""} IN
         IF who = {} THEN "" ELSE TypeOf(n.subs[CHOOSE i \in who : \A j \in who : i <= j], name)
    [] n.k = "filter" -> IF name \in Ran(n.names) THEN TypeOf(n.sub, name) ELSE ""
    [] n.k = "pre" -> IF StartsWith(name, n.pre) THEN TypeOf(n.sub, Drop(name, Len(n.pre))) ELSE ""
    [] n.k = "wrap" -> TypeOf(n.sub, name)
    [] n.k = "dyn" -> IF name # "" /\ ByKey(n, name) # {} THEN TypeOf(n.subs[CHOOSE i \in ByKey(n, name) : TRUE], name) ELSE ""
Provider(n, name) == CHOOSE i \in 1..Len(n.subs) : TypeOf(n.subs[i], name) # "" /\ \A j \in 1..(i - 1) : TypeOf(n.subs[j], name) = ""
Stripped(n, names) == {Drop(name, Len(n.pre)) : name \in names}
Share(n, i, names) == {name \in names : Provider(n, name) = i}

(* Binding provided names.  A tuple is bound as a whole or not at all.          *)
RECURSIVE CanBind(_, _)
CanBind(n, names) ==
  CASE names = {} -> TRUE
    [] n.k = "tuple" -> names = Fields(n)
    [] n.k = "chain" -> \A i \in 1..Len(n.subs) : CanBind(n.subs[i], Share(n, i, names))
    [] n.k \in {"filter", "wrap"} -> CanBind(n.sub, names)
    [] n.k = "pre" -> CanBind(n.sub, Stripped(n, names))
    [] n.k = "dyn" -> \A i \in 1..Len(n.subs) : CanBind(n.subs[i], {name \in names : First(name) = n.keys[i]})
    [] OTHER -> TRUE
Names(slots) == {slots[i].n : i \in 1..Len(slots)}
SlotsFit(n, slots) == \A i \in 1..Len(slots) : TypeOf(n, slots[i].n) # "" /\ TypeOf(n, slots[i].n) = slots[i].t
Binds(n, slots) == SlotsFit(n, slots) /\ CanBind(n, Names(slots))
Supported(n, slots) == SelectSeq(slots, LAMBDA s : TypeOf(n, s.n) # "")

(* Reading an input: a record with an id, a map, a vector, typed values and     *)
(* parts.                                                                       *)
Entry(in, key) == {in.map[i].v : i \in {i \in 1..Len(in.map) : in.map[i].k = key}}
RECURSIVE ValueOf(_, _, _)
ValueOf(n, name, in) ==
  CASE n.k = "acc" -> 1000 * in.id + n.fs[Field(n, name)].f
    [] n.k = "span" -> 1000 * in.id + 100 + Field(n, name)
    [] n.k = "tuple" -> 1000 * in.id + 200 + Field(n, name)
    [] n.k = "refs" -> 1000 * in.id + 300 + Field(n, name)
    [] n.k \in {"wild", "cb"} -> CHOOSE v \in Entry(in, Key(n, name)) : TRUE
    [] n.k = "chain" -> ValueOf(n.subs[Provider(n, name)], name, in)
    [] n.k \in {"filter", "wrap"} -> ValueOf(n.sub, name, in)
    [] n.k = "pre" -> ValueOf(n.sub, Drop(name, Len(n.pre)), in.kids[n.kid])
    [] n.k = "dyn" -> ValueOf(n.subs[CHOOSE i \in ByKey(n, name) : TRUE], name, in)
(* Whether all names bound can be read.                                         *)
RECURSIVE CanLoad(_, _, _)
CanLoad(n, names, in) ==
  CASE names = {} -> TRUE
    [] n.k = "span" -> in.vec = Len(n.fs)
    [] n.k = "refs" -> Len(in.refs) = Len(n.fs) /\ \A name \in names : in.refs[Field(n, name)] = n.fs[Field(n, name)].t
    [] n.k \in {"wild", "cb"} -> \A name \in names : Entry(in, Key(n, name)) # {}
    [] n.k = "chain" -> \A i \in 1..Len(n.subs) : CanLoad(n.subs[i], Share(n, i, names), in)
    [] n.k \in {"filter", "wrap"} -> CanLoad(n.sub, names, in)
    [] n.k = "pre" -> CanLoad(n.sub, Stripped(n, names), in.kids[n.kid])
    [] n.k = "dyn" -> \A i \in 1..Len(n.subs) : CanLoad(n.subs[i], {name \in names : First(name) = n.keys[i]}, in)
    [] OTHER -> TRUE
(* The names of which accessors are called (the others are read in place).      *)
RECURSIVE Calls(_, _, _)
Calls(n, name, in) ==
  CASE n.k \in {"acc", "wild", "cb"} -> TRUE
    [] n.k = "chain" -> Calls(n.subs[Provider(n, name)], name, in)
    [] n.k \in {"filter", "wrap"} -> Calls(n.sub, name, in)
    [] n.k = "pre" -> Calls(n.sub, Drop(name, Len(n.pre)), in)
    [] n.k = "dyn" -> Calls(n.subs[CHOOSE i \in ByKey(n, name) : TRUE], name, in)
    [] OTHER -> FALSE
(* Names to suggest.                                                            *)
RECURSIVE Suggest(_)
RECURSIVE SuggestAll(_, _)
SuggestAll(subs, i) == IF i > Len(subs) THEN <<>> ELSE Suggest(subs[i]) \o SuggestAll(subs, i + 1)
Suggest(n) ==
  CASE n.k \in {"acc", "span", "tuple", "refs"} -> [i \in 1..Len(n.fs) |-> n.fs[i].n]
    [] n.k = "wild" -> <<n.pre \o "*" \o n.suf>>
    [] n.k = "cb" -> [i \in 1..Len(n.fs) |-> n.pre \o n.fs[i].n \o n.suf]
    [] n.k = "chain" -> SuggestAll(n.subs, 1)
    [] n.k = "filter" -> LET ok(s) == s \in Ran(n.names) IN SelectSeq(Suggest(n.sub), ok)
    [] n.k = "pre" -> LET s == Suggest(n.sub) IN [i \in 1..Len(s) |-> n.pre \o s[i]]
    [] n.k = "wrap" -> Suggest(n.sub)
    [] n.k = "dyn" -> n.keys

(* Listeners: every part that knows a name hears it, in order.                  *)
RECURSIVE Hears(_, _)
Hears(n, slots) ==                                     \* of names known to n
  CASE n.k = "acc" -> \A i \in 1..Len(slots) : slots[i].t = TypeOf(n, slots[i].n)
    [] n.k = "chain" -> \A i \in 1..Len(n.subs) : Hears(n.subs[i], Supported(n.subs[i], slots))
    [] n.k = "wrap" -> Hears(n.sub, slots)
    [] n.k = "pre" -> Hears(n.sub, [i \in 1..Len(slots) |-> [slots[i] EXCEPT !.n = Drop(slots[i].n, Len(n.pre))]])
Listens(n, slots) == SlotsFit(n, slots) /\ Hears(n, slots)
RECURSIVE Heard(_, _, _)
RECURSIVE HeardAll(_, _, _, _)
HeardAll(n, i, slots, out) == IF i > Len(n.subs) THEN <<>> ELSE Heard(n.subs[i], Supported(n.subs[i], slots), out) \o HeardAll(n, i + 1, slots, out)
Heard(n, slots, out) ==                                \* a sequence of <<output, field, value>>
  CASE n.k = "acc" ->
         LET mine == SelectSeq(n.fs, LAMBDA f : f.n \in Names(slots))
             val(name) == slots[CHOOSE i \in 1..Len(slots) : slots[i].n = name].v IN
         [i \in 1..Len(mine) |-> <<out.id, mine[i].f, val(mine[i].n)>>]
    [] n.k = "chain" -> HeardAll(n, 1, slots, out)
    [] n.k = "wrap" -> Heard(n.sub, slots, out)
    [] n.k = "pre" -> Heard(n.sub, [i \in 1..Len(slots) |-> [slots[i] EXCEPT !.n = Drop(slots[i].n, Len(n.pre))]], out.kids[n.kid])
=============================================================================
