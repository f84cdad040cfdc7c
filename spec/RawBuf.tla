------------------------------- MODULE RawBuf --------------------------------
(* Raw buffer factories (heap, protobuf arena, resettable arena): blocks handed *)
(* out are disjoint, inside the memory they are cut from, keep their contents   *)
(* until they are dropped or the arena is reset, and keep the common prefix     *)
(* when they are resized.  blk: the live blocks, id -> [n, chunk, off] (chunk 0 *)
(* where the place is not known).                                               *)
EXTENDS Integers, FiniteSets
VARIABLE blk
RInit == blk = <<>>
Apart(x, y) == x.chunk = 0 \/ x.chunk # y.chunk \/ x.off + x.n <= y.off \/ y.off + y.n <= x.off
\* Every two non-empty blocks are disjoint.
Disjoint(m) == \A i, j \in DOMAIN m : i = j \/ m[i].n = 0 \/ m[j].n = 0 \/ Apart(m[i], m[j])
With(m, id, x) == [i \in DOMAIN m \cup {id} |-> IF i = id THEN x ELSE m[i]]
Create(id, n, c, o) == id \notin DOMAIN blk /\ blk' = With(blk, id, [n |-> n, chunk |-> c, off |-> o])
Realloc(id, n, c, o) == id \in DOMAIN blk /\ blk' = With(blk, id, [n |-> n, chunk |-> c, off |-> o])
Drop(id) == blk' = [i \in DOMAIN blk \ {id} |-> blk[i]]
Reset == blk' = <<>>
=============================================================================
