-------------------------------- MODULE Arena --------------------------------
(* Design of the resettable arena: pages of P bytes, blocks cut from the        *)
(* current page at multiples of G, blocks that do not suit a page in a chunk of *)
(* their own.  Model checked: whatever is created, resized and reset, the live  *)
(* blocks are disjoint and inside their chunk (RawBuf.Disjoint).                *)
EXTENDS RawBuf, Sequences
CONSTANTS P, G, N, Sizes
VARIABLES page, np, cur, nbig
avars == <<blk, page, np, cur, nbig>>
\* Pages are the chunks 1, 2, ..; big blocks the chunks 1001, 1002, ..
Up(x) == ((x + G - 1) \div G) * G
AInit == RInit /\ page = 0 /\ np = 0 /\ cur = P /\ nbig = 0
\* Somewhere else than the current page (which is left as it is for big blocks).
Slow(id, n, from) ==
  IF n > P \/ (page > 0 /\ P - from >= P \div 2)
    THEN /\ blk' = With(blk, id, [n |-> n, chunk |-> 1001 + nbig, off |-> 0])
         /\ nbig' = nbig + 1 /\ cur' = from /\ UNCHANGED <<page, np>>
    ELSE /\ blk' = With(blk, id, [n |-> n, chunk |-> page + 1, off |-> 0])
         /\ page' = page + 1 /\ np' = IF page + 1 > np THEN page + 1 ELSE np
         /\ cur' = n /\ UNCHANGED nbig
ACreate(id, n) ==
  /\ id \notin DOMAIN blk
  /\ IF page = 0 \/ Up(cur) + n > P THEN Slow(id, n, cur)
     ELSE /\ blk' = With(blk, id, [n |-> n, chunk |-> page, off |-> Up(cur)])
          /\ cur' = Up(cur) + n /\ UNCHANGED <<page, np, nbig>>
Last(id) == blk[id].chunk = page /\ blk[id].off = cur - blk[id].n
ARealloc(id, n) ==
  /\ id \in DOMAIN blk
  /\ LET x == blk[id] IN
     IF Last(id) /\ x.off + n <= P
       THEN blk' = With(blk, id, [x EXCEPT !.n = n]) /\ cur' = x.off + n /\ UNCHANGED <<page, np, nbig>>
     ELSE IF x.n >= n THEN blk' = With(blk, id, [x EXCEPT !.n = n]) /\ UNCHANGED <<page, np, cur, nbig>>
     ELSE Slow(id, n, IF Last(id) THEN x.off ELSE cur)
AReset == blk' = <<>> /\ nbig' = 0 /\ np' = np
          /\ IF page > 0 THEN page' = 1 /\ cur' = 0 ELSE UNCHANGED <<page, cur>>
ANext == \/ \E id \in 1..N, n \in Sizes : ACreate(id, n) \/ ARealloc(id, n)
         \/ AReset
ASpec == AInit /\ [][ANext]_avars
Bound == page < 3 /\ nbig < 3
Inside == \A i \in DOMAIN blk : blk[i].chunk <= 1000 => blk[i].off + blk[i].n <= P
Safe == Disjoint(blk) /\ Inside
=============================================================================
