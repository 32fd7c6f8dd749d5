------------------------------- MODULE Batch -------------------------------
(* C07.  Mapping a solve A x = b over batches.  A program is a nest of maps;   *)
(* each map batches the matrix, the right-hand side or both, with some size.   *)
(* The state is the flat payload the back end receives: one (matrix, rhs) pair *)
(* of origins per member.  The back end's packing - broadcast whatever is not  *)
(* mapped, prepend the new axis, solve one block-diagonal system (or one       *)
(* matrix with many right-hand sides while no matrix is mapped), unflatten -   *)
(* must give member <<i1,..,ik>> its own matrix and right-hand side.           *)
EXTENDS VLib, Json
CONSTANTS Sizes, MaxDepth, Emit
VARIABLES axes,      \* outermost first: [a |-> matrix mapped?, b |-> rhs mapped?, n |-> size]
          pa, pb,    \* payload: flat sequences of origins (index tuples); pa of length 1 means shared
          shape, done
vars == <<axes, pa, pb, shape, done>>
Init == axes = <<>> /\ pa = << <<>> >> /\ pb = << <<>> >> /\ shape = <<>> /\ done = FALSE
Total(sh) == FoldLeft(LAMBDA x, y : x * y, 1, sh)
(* prepend an axis of size n to a payload of origins; mapped origins get the new index, others are repeated *)
Prepend(p, n, mapped) == [q \in 1..(n * Len(p)) |->
   LET i == ((q - 1) \div Len(p)) + 1  r == ((q - 1) % Len(p)) + 1 IN IF mapped THEN <<i>> \o p[r] ELSE p[r]]
Bcast(p, m) == IF Len(p) = m THEN p ELSE [q \in 1..m |-> p[1]]
Map(a, b, n) ==
   /\ ~done /\ Len(axes) < MaxDepth /\ (a \/ b)
   /\ axes' = <<[a |-> a, b |-> b, n |-> n]>> \o axes
   /\ shape' = <<n>> \o shape
   /\ pb' = Prepend(Bcast(pb, Total(shape)), n, b)
   (* many right-hand sides, one matrix: stays shared while it was never mapped *)
   /\ pa' = IF ~a /\ Len(pa) = 1 THEN pa ELSE Prepend(Bcast(pa, Total(shape)), n, a)
   /\ UNCHANGED done
Solve == /\ ~done /\ axes # <<>> /\ done' = TRUE
         /\ (Emit => PrintT("@@" \o ToJson(axes))) /\ UNCHANGED <<axes, pa, pb, shape>>
Next == Solve \/ \E a, b \in BOOLEAN, n \in Sizes : Map(a, b, n)
Spec == Init /\ [][Next]_vars

(* --- properties --- *)
RECURSIVE Unflat(_, _)
Unflat(q, sh) == IF sh = <<>> THEN <<>> ELSE LET w == Total(Tail(sh)) IN <<(q \div w) + 1>> \o Unflat(q % w, Tail(sh))
Own(idx, F(_)) == SelectSeq([j \in 1..Len(idx) |-> IF F(axes[j]) THEN idx[j] ELSE 0], LAMBDA x : x # 0)
MemberSeesItsOwn == \A q \in 1..Total(shape) :
   LET idx == Unflat(q - 1, shape) IN
      /\ Bcast(pa, Total(shape))[q] = Own(idx, LAMBDA x : x.a)
      /\ Bcast(pb, Total(shape))[q] = Own(idx, LAMBDA x : x.b)
PayloadSize == Len(pa) \in {1, Total(shape)} /\ Len(pb) = Total(shape)
=============================================================================
