------------------------------- MODULE Lattice -------------------------------
(* Strut lattices: a graph grows edge by edge (any orientation, repeats,        *)
(* zero-length struts); a point is solid exactly when it lies within the strut  *)
(* radius of some edge.  Coordinates are integers, radii half-integers, so the  *)
(* point-segment comparison is decided exactly:                                 *)
(*   foot outside -> distance to the nearer end;  inside -> |w|^2 - (w.v)^2/v.v *)
EXTENDS VLib, Json
CONSTANTS ScenFile, MaxEdges, Emit
S == JsonDeserialize(ScenFile)    \* [dim, nodes: seq of int vectors, pts: seq of int vectors, r2: int (twice the radius), cand: seq of <<i,j>>]
VARIABLES s, edges
vars == <<s, edges>>
Sub(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
Sq(a) == Dot(a, a)
N(i) == S[s].nodes[i]
(* sign of (4 * distance^2 * v.v - (2r)^2 * v.v): <0 inside, 0 on the surface, >0 outside *)
Side(x, i, j, r2) ==
  LET v == Sub(N(j), N(i))  w == Sub(x, N(i))  vv == Sq(v)  wv == Dot(w, v) IN
  IF vv = 0 \/ wv <= 0 THEN 4 * Sq(w) - r2 * r2
  ELSE IF wv >= vv THEN 4 * Sq(Sub(x, N(j))) - r2 * r2
  ELSE 4 * (Sq(w) * vv - wv * wv) - r2 * r2 * vv
Verdict(x, es, r2) == IF \E e \in es : Side(x, e[1], e[2], r2) < 0 THEN 1
                      ELSE IF \E e \in es : Side(x, e[1], e[2], r2) = 0 THEN 2 ELSE 0     \* 2: exactly on the strut surface
Pairs(q) == {<<Min2(q[k][1], q[k][2]), Max2(q[k][1], q[k][2])>> : k \in 1..Len(q)}
Adj(q) == [i \in 1..Len(S[s].nodes) |-> [j \in 1..Len(S[s].nodes) |-> IF <<Min2(i, j), Max2(i, j)>> \in Pairs(q) THEN 1 ELSE 0]]
(* the edges an undirected adjacency describes, row by row; struts from a node to itself are not edges of it *)
Listed(M) == SetToSortSeq({<<i, j>> \in (1..Len(M)) \X (1..Len(M)) : i < j /\ M[i][j] # 0}, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Loops(q) == {<<q[k][1], q[k][2]>> : k \in {z \in 1..Len(q) : q[z][1] = q[z][2]}}

Init == s \in 1..Len(S) /\ edges = <<>>
AddEdge(k) == Len(edges) < MaxEdges /\ k \in 1..Len(S[s].cand) /\ edges' = Append(edges, S[s].cand[k]) /\ UNCHANGED s
Report == /\ Emit /\ Len(edges) = MaxEdges
          /\ PrintT("@@" \o ToJson([s |-> s, steps |-> [n \in 1..(Len(edges) + 1) |-> LET q == SubSeq(edges, 1, n - 1) IN
                [edges |-> q, solid |-> [p \in 1..Len(S[s].pts) |-> Verdict(S[s].pts[p], RangeOf(q), S[s].r2)],
                 noloop |-> [p \in 1..Len(S[s].pts) |-> Verdict(S[s].pts[p], RangeOf(q) \ Loops(q), S[s].r2)],
                 adj |-> Adj(q), back |-> Listed(Adj(q))]]]))
          /\ UNCHANGED vars
Next == (\E k \in 1..12 : AddEdge(k)) \/ Report
Spec == Init /\ [][Next]_vars

Rev(q) == [k \in 1..Len(q) |-> <<q[Len(q) + 1 - k][2], q[Len(q) + 1 - k][1]>>]
DirectionFree == \A p \in 1..Len(S[s].pts) : Verdict(S[s].pts[p], RangeOf(edges), S[s].r2) = Verdict(S[s].pts[p], RangeOf(Rev(edges)), S[s].r2)
Lossless == /\ RangeOf(Listed(Adj(edges))) = Pairs(edges) \ Loops(edges)
            /\ Adj(Listed(Adj(edges))) = [i \in 1..Len(S[s].nodes) |-> [j \in 1..Len(S[s].nodes) |-> IF i = j THEN 0 ELSE Adj(edges)[i][j]]]
(* struts only ever add material *)
Monotone == [][\A p \in 1..Len(S[s].pts) : Verdict(S[s].pts[p], RangeOf(edges), S[s].r2) = 1 => Verdict(S[s].pts[p], RangeOf(edges'), S[s].r2) = 1]_vars
EndsAreIn == \A e \in RangeOf(edges) : Verdict(N(e[1]), {e}, S[s].r2 + 1) = 1 /\ Verdict(N(e[2]), {e}, S[s].r2 + 1) = 1
=============================================================================
