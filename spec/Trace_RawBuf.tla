---------------------------- MODULE Trace_RawBuf -----------------------------
EXTENDS TraceSession, RawBuf
vars == <<b, l, blk>>
At(id) == LET k == CHOOSE k \in 1..Len(Ev.blocks) : Ev.blocks[k].id = id IN Ev.blocks[k]
Arena == Evs[1].fac = "arena"
Matches ==
  /\ Ev.guards
  /\ {Ev.blocks[k].id : k \in 1..Len(Ev.blocks)} = DOMAIN blk'
  /\ TRUE = \A id \in DOMAIN blk' :
       LET o == At(id) IN
       /\ o.holds /\ o.mod = 0
       /\ (Arena /\ blk'[id].n > 0) => (o.chunk > 0 /\ o.chunk = blk'[id].chunk /\ o.off = blk'[id].off)
       /\ (~Arena /\ Evs[1].fac = "heap" /\ blk'[id].n > 0) => o.owner
  /\ TRUE = Disjoint(blk')
Place == At(Ev.id)
TNext ==
  \/ Is("begin") /\ blk' = <<>> /\ Matches
  \/ Is("create") /\ Create(Ev.id, Ev.n, Place.chunk, Place.off) /\ Matches
  \/ Is("realloc") /\ Ev.kept /\ Realloc(Ev.id, Ev.n, Place.chunk, Place.off) /\ Matches
  \/ Is("drop") /\ Drop(Ev.id) /\ Matches
  \/ Is("reset") /\ Reset /\ Matches
  \/ AtEnd /\ UNCHANGED vars
TSpec == (SessionInit /\ RInit) /\ [][TNext]_vars
=============================================================================
