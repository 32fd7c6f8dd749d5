---------------------------- MODULE UnitCellGeom ----------------------------
(* Geometry of a unit cell: bounding box of its points; corners, edges, faces   *)
(* by the number of coordinates at a bound; selector functions of a face, edge  *)
(* or corner with exclusions; periodic mapping of one selection onto another;   *)
(* and the directional stiffness 1 / (n n S n n) of a compliance matrix.        *)
EXTENDS VLib, Json
CONSTANTS ScenFile
S == JsonDeserialize(ScenFile)   \* [d, pts, cells, q: seq of [k, axes, side, xe, xc, to]], S6: 6x6, n: dir]
VARIABLE s
D == S[s].d
Lb == [k \in 1..D |-> CHOOSE v \in {p[k] : p \in RangeOf(S[s].pts)} : \A p \in RangeOf(S[s].pts) : v <= p[k]]
Ub == [k \in 1..D |-> CHOOSE v \in {p[k] : p \in RangeOf(S[s].pts)} : \A p \in RangeOf(S[s].pts) : v >= p[k]]
Hits(p) == Cardinality({k \in 1..D : p[k] = Lb[k] \/ p[k] = Ub[k]})
Corner(p) == Hits(p) = D
Edge(p) == Hits(p) = D - 1
Face(p) == Hits(p) = D - 2
At(p, k, side) == p[k] = (IF side = 0 THEN Lb[k] ELSE Ub[k])
(* q.k: 1 face (one axis), 2 edge (several axes), 3 corner (all axes) *)
Sel(p, q) == /\ \A i \in 1..Len(q.axes) : At(p, q.axes[i], q.side[i])
             /\ (q.xe /\ q.k = 1 => ~Edge(p) /\ ~Corner(p))
             /\ (q.xc => ~Corner(p))
Opp(q) == [q EXCEPT !.side = [i \in 1..Len(q.side) |-> 1 - q.side[i]]]
Count(q) == Cardinality({i \in 1..Len(S[s].pts) : Sel(S[s].pts[i], q)})
Shift(q) == [k \in 1..D |-> IF \E i \in 1..Len(q.axes) : q.axes[i] = k
                            THEN LET i == CHOOSE j \in 1..Len(q.axes) : q.axes[j] = k IN (IF q.side[i] = 0 THEN Ub[k] - Lb[k] ELSE Lb[k] - Ub[k]) ELSE 0]
Bits(c) == [k \in 1..D |-> IF (c \div (2 ^ (D - k))) % 2 = 1 THEN Ub[k] ELSE Lb[k]]
Sums(c) == [k \in 1..D |-> SumOver(LAMBDA i : S[s].pts[c[i]][k], 1, Len(c))]
Quad == LET n == S[s].n  a == <<n[1] * n[1], n[2] * n[2], n[3] * n[3], n[2] * n[3], n[1] * n[3], n[1] * n[2]>> IN Dot(a, MatVec(S[s].S6, a))
Out == [s |-> s, lb |-> Lb, ub |-> Ub, corners |-> [c \in 1..(2 ^ D) |-> Bits(c - 1)],
        hits |-> [i \in 1..Len(S[s].pts) |-> Hits(S[s].pts[i])],
        sums |-> [c \in 1..Len(S[s].cells) |-> Sums(S[s].cells[c])],
        sel |-> [k \in 1..Len(S[s].q) |-> [i \in 1..Len(S[s].pts) |-> Sel(S[s].pts[i], S[s].q[k])]],
        shift |-> [k \in 1..Len(S[s].q) |-> Shift(S[s].q[k])], n |-> [k \in 1..Len(S[s].q) |-> <<Count(S[s].q[k]), Count(Opp(S[s].q[k]))>>],
        quad |-> Quad]
Init == s \in 1..Len(S) /\ PrintT("@@" \o ToJson(Out))
Next == UNCHANGED s
Spec == Init /\ [][Next]_s
(* every node is in exactly one class; opposite selections of a periodic point set correspond by the shift *)
Classes == \A p \in RangeOf(S[s].pts) : Cardinality({k \in 0..D : Hits(p) = k}) = 1 /\ (Corner(p) => ~Edge(p) /\ ~Face(p))
Periodic == (\A p \in RangeOf(S[s].pts) : \A k \in 1..D : At(p, k, 0) => [p EXCEPT ![k] = Ub[k]] \in RangeOf(S[s].pts))
            /\ (\A p \in RangeOf(S[s].pts) : \A k \in 1..D : At(p, k, 1) => [p EXCEPT ![k] = Lb[k]] \in RangeOf(S[s].pts))
Maps == Periodic => \A k \in 1..Len(S[s].q) : {[j \in 1..D |-> p[j] + Shift(S[s].q[k])[j]] : p \in {x \in RangeOf(S[s].pts) : Sel(x, S[s].q[k])}} = {x \in RangeOf(S[s].pts) : Sel(x, Opp(S[s].q[k]))}
CornersFirstIsLower == Bits(0) = Lb /\ Bits(2 ^ D - 1) = Ub
=============================================================================
