------------------------------ MODULE MultiRes ------------------------------
(* C13: coarse-to-fine schedule of the moving-band loop.  A ladder of grids     *)
(* from coarse to the requested one; the whole grid is solved only while the     *)
(* coarsest level explores, every finer level starts from the coarser design.    *)
EXTENDS VLib, Json
CONSTANTS ScenFile, Emit
VARIABLES s, lvl, it, done, log
vars == <<s, lvl, it, done, log>>
Scens == JsonDeserialize(ScenFile)              \* [id, dims, n, p, q (factor p/q), floor, niter, citer (-1: default), gus]
RoundHE(a, b) == LET f == a \div b r == a % b IN IF 2 * r > b \/ (2 * r = b /\ f % 2 = 1) THEN f + 1 ELSE f     \* to nearest, ties to even
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Coarser(x, d) == Mn(d, Mx(x.floor, RoundHE(d * x.q, x.p)))
RECURSIVE Lad(_, _, _)
Lad(x, l, k) == IF k = 0 THEN l ELSE LET d == [i \in 1..3 |-> Coarser(x, l[1][i])] IN IF d = l[1] THEN l ELSE Lad(x, <<d>> \o l, k - 1)
Ladder(x) == Lad(x, <<x.dims>>, x.n - 1)
CIter(x) == IF x.citer >= 0 THEN x.citer ELSE Mx(10, x.niter \div 2)
Len_(x, l) == IF l = Len(Ladder(x)) THEN x.niter ELSE CIter(x)
Gus(x, l) == IF l = 1 THEN x.gus ELSE 0
Init == s \in ToSet(Scens) /\ lvl = 1 /\ it = 0 /\ done = FALSE /\ log = <<>>
Iterate == /\ ~done /\ it < Len_(s, lvl)
           /\ log' = Append(log, [lvl |-> lvl, dims |-> Ladder(s)[lvl], it |-> it, full |-> it < Gus(s, lvl), seeded |-> lvl > 1])
           /\ it' = it + 1 /\ UNCHANGED <<s, lvl, done>>
Refine == /\ ~done /\ it = Len_(s, lvl) /\ lvl < Len(Ladder(s)) /\ lvl' = lvl + 1 /\ it' = 0 /\ UNCHANGED <<s, done, log>>
Finish == /\ ~done /\ it = Len_(s, lvl) /\ lvl = Len(Ladder(s)) /\ done' = TRUE
          /\ (Emit => PrintT("@@" \o ToJson([id |-> s.id, ladder |-> Ladder(s), iters |-> [l \in 1..lvl |-> Len_(s, l)], full |-> [l \in 1..lvl |-> Gus(s, l)], n |-> Len(log)])))
          /\ UNCHANGED <<s, lvl, it, log>>
Next == Iterate \/ Refine \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
LadderSound == LET L == Ladder(s) IN /\ Len(L) \in 1..Mx(1, s.n) /\ L[Len(L)] = s.dims
               /\ \A l \in 1..Len(L) - 1 : L[l] # L[l + 1] /\ \A i \in 1..3 : L[l][i] <= L[l + 1][i] /\ L[l][i] >= Mn(s.floor, s.dims[i])
FullOnlyOnCoarsest == \A i \in 1..Len(log) : log[i].full => log[i].lvl = 1 /\ log[i].it < s.gus
EveryLevelFromCoarser == \A i \in 1..Len(log) : log[i].seeded <=> log[i].lvl > 1
LevelsInOrder == \A i \in 1..Len(log) - 1 : (log[i + 1].lvl = log[i].lvl /\ log[i + 1].it = log[i].it + 1) \/ (log[i + 1].lvl > log[i].lvl /\ log[i + 1].it = 0)
FinestRunsAsAsked == done => Cardinality({i \in 1..Len(log) : log[i].lvl = Len(Ladder(s))}) = s.niter
Ends == <>done
=============================================================================
