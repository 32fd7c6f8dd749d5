----------------------------- MODULE MeshTiling -----------------------------
(* C12: what it means for a mesh to tile its domain, decided in exact integer   *)
(* geometry.  Recorded meshes (coordinates on an integer lattice) are the       *)
(* scenarios; reference grids and their mutants check the criterion itself.     *)
EXTENDS Elements, Json
CONSTANTS ScenFile, Emit
VARIABLES i, done
File == JsonDeserialize(ScenFile)
Scens == File.meshes
CellX(s, c) == [k \in 1..Len(s.cells[c]) |-> s.pts[s.cells[c][k] + 1]]
Cells(s) == 1..Len(s.cells)
InRange(s) == \A c \in Cells(s) : Len(s.cells[c]) = NNodes(s.ele) /\ \A k \in 1..NNodes(s.ele) : s.cells[c][k] \in 0..(Len(s.pts) - 1)
Distinct(s) == Cardinality({s.pts[n] : n \in 1..Len(s.pts)}) = Len(s.pts)
Used(s) == UNION {{s.cells[c][k] : k \in 1..Len(s.cells[c])} : c \in Cells(s)} = 0..(Len(s.pts) - 1)
Oriented(s) == \A c \in Cells(s) : LET X == CellX(s, c) IN
   IF Simplex(s.ele) THEN CornerDet(s.ele, X, 1) > 0 ELSE \A k \in 1..NCorners(s.ele) : CornerDet(s.ele, X, k) > 0
Affine(s) == \A c \in Cells(s) : AffineNodes(s.ele, CellX(s, c))
Measure(s) == SumOver(LAMBDA c : CornerDet(s.ele, CellX(s, c), 1), 1, Len(s.cells))   \* d! V for simplices, V for boxes
Sq(x) == x * x
Near(r2, r) == r2 >= Sq(r - 2) /\ r2 <= Sq(r + 2)
P(s, n) == s.pts[n + 1]
OnDomain(s, f) ==
   CASE s.kind = "box" -> \E a \in 1..Len(s.lo) : (\A n \in f : P(s, n)[a] = s.lo[a]) \/ (\A n \in f : P(s, n)[a] = s.hi[a])
     [] s.kind = "ball" -> \A n \in f : Near(Sq(P(s, n)[1]) + Sq(P(s, n)[2]) + Sq(P(s, n)[3]), s.rad)
     [] s.kind = "cyl" -> \/ \A n \in f : P(s, n)[3] = 0
                          \/ \A n \in f : P(s, n)[3] = s.height
                          \/ \A n \in f : Near(Sq(P(s, n)[1]) + Sq(P(s, n)[2]), s.rad)
(* every face has two owners inside and one on the boundary, and the boundary found is the domain's *)
Incidence(s) == TLCEval([n \in 0..(Len(s.pts) - 1) |-> TLCEval({c \in Cells(s) : \E k \in 1..NCorners(s.ele) : s.cells[c][k] = n})])
CellSets(s) == TLCEval([c \in Cells(s) |-> TLCEval({s.cells[c][k] : k \in 1..NCorners(s.ele)})])
Conforming(s) == LET inc == Incidence(s)  cs == CellSets(s)  F == Faces(s.ele)
                     own(f) == Cardinality({c \in inc[Min(f)] : f \subseteq cs[c]}) IN
   \A c \in Cells(s) : \A lf \in F : LET f == {s.cells[c][k] : k \in lf}  o == own(f) IN
      IF s.kind = "box" THEN o = (IF OnDomain(s, f) THEN 1 ELSE 2) ELSE o = 2 \/ (o = 1 /\ OnDomain(s, f))
(* the boundary of the chain of positively oriented cells is the domain's boundary: then the measures agree *)
MeasureOK(s) == IF s.kind = "box" THEN Measure(s) = s.measure ELSE Measure(s) <= s.measure /\ Measure(s) >= 6 * (s.measure \div 10)
CountOK(s) == s.ncells = 0 \/ s.ncells = Len(s.cells)
Verdict(s) == LET r == InRange(s) IN
   [range |-> r, distinct |-> r /\ Distinct(s), used |-> r /\ Used(s), oriented |-> r /\ Oriented(s), midnodes |-> r /\ (s.affine = 0 \/ Affine(s)),
    conforming |-> r /\ Conforming(s), measure |-> r /\ MeasureOK(s), count |-> CountOK(s)]
AllOK(v) == \A k \in DOMAIN v : v[k]
(* ---- boundary selection: exactly the faces whose corners all satisfy the predicate ---- *)
Sat(s, p, n) == LET x == P(s, n) IN (p.axis = 0 \/ x[p.axis] = p.val) /\ (\A a \in 1..Len(x) : p.lo[a] <= x[a] /\ x[a] <= p.hi[a]) /\ (Len(p.nodes) = 0 \/ \E k \in 1..Len(p.nodes) : p.nodes[k] = n)
Selected(s, p) == UNION {{<<c - 1, f>> : f \in {g \in {{s.cells[c][k] : k \in lf} : lf \in Faces(s.ele)} : \A n \in g : Sat(s, p, n)}} : c \in Cells(s)}
SelOK(s, p) == LET R == {<<p.picked[k][1], {p.picked[k][2][m] : m \in 1..Len(p.picked[k][2])}>> : k \in 1..Len(p.picked)} IN
   [exact |-> R = Selected(s, p), once |-> Cardinality(R) = Len(p.picked), count |-> p.count = 0 - 1 \/ p.count = Cardinality(Selected(s, p))]
Init == i = 0 /\ done = FALSE
Step == /\ i < Len(Scens) /\ i' = i + 1 /\ UNCHANGED done
        /\ LET s == Scens[i + 1]  v == Verdict(s) IN
           (Emit => PrintT("@@" \o ToJson([id |-> s.id, v |-> v, sel |-> [k \in 1..Len(s.sel) |-> SelOK(s, s.sel[k])]])))
Next == Step
Spec == Init /\ [][Next]_<<i, done>>
(* ---- reference grids: the criterion accepts them and rejects every mutant ---- *)
GridPts(dims) == IF Len(dims) = 2 THEN {<<2*a, 2*b>> : a \in 0..dims[1], b \in 0..dims[2]} ELSE {<<2*a, 2*b, 2*c>> : a \in 0..dims[1], b \in 0..dims[2], c \in 0..dims[3]}
Shift(r, o) == [k \in DOMAIN r |-> r[k] + 2 * o[k]]
Offsets(dims) == IF Len(dims) = 2 THEN {<<a, b>> : a \in 0..(dims[1]-1), b \in 0..(dims[2]-1)} ELSE {<<a, b, c>> : a \in 0..(dims[1]-1), b \in 0..(dims[2]-1), c \in 0..(dims[3]-1)}
RefGrid(e, dims) == LET os == SetToSeq(Offsets(dims))
                        PS == UNION {{Shift(RefNodes(e)[k], o) : k \in 1..NNodes(e)} : o \in Offsets(dims)}
                        ps == SetToSeq(PS)
                        idx(p) == (CHOOSE m \in 1..Len(ps) : ps[m] = p) - 1 IN
   [ele |-> e, pts |-> ps, cells |-> [c \in 1..Len(os) |-> [k \in 1..NNodes(e) |-> idx(Shift(RefNodes(e)[k], os[c]))]],
    kind |-> "box", lo |-> [k \in DOMAIN dims |-> 0], hi |-> [k \in DOMAIN dims |-> 2 * dims[k]], affine |-> 1, ncells |-> Len(os),
    measure |-> FoldLeft(LAMBDA a, b : a * 2 * b, 1, dims)]
Swap(q, a, b) == [k \in DOMAIN q |-> IF k = a THEN q[b] ELSE IF k = b THEN q[a] ELSE q[k]]
Mutants(s) == LET n == Len(s.cells) IN
   {[s EXCEPT !.cells = SubSeq(@, 1, n - 1)], [s EXCEPT !.cells = Append(@, @[1])], [s EXCEPT !.cells[n] = Swap(@, 1, 2)],
    [s EXCEPT !.cells[1] = Swap(@, 2, 4)], [s EXCEPT !.pts = Append(@, @[1])], [s EXCEPT !.pts = Append(@, [k \in DOMAIN @[1] |-> 77])],
    [s EXCEPT !.cells[1][2] = s.cells[1][1]]}
   \cup (IF NNodes(s.ele) > NCorners(s.ele) THEN {[s EXCEPT !.cells[n] = Swap(@, NNodes(s.ele), NNodes(s.ele) - 1)]} ELSE {})
RefCases == {<<e, d>> : e \in {"QUAD4", "QUAD8", "QUAD9"}, d \in {<<1, 1>>, <<2, 1>>, <<2, 2>>}} \cup {<<e, d>> : e \in {"HEX8", "HEX20"}, d \in {<<1, 1, 1>>, <<2, 1, 1>>}}
CriterionSound == i = 0 => \A rc \in RefCases : LET s == RefGrid(rc[1], rc[2]) IN AllOK(Verdict(s)) /\ \A m \in Mutants(s) : ~AllOK(Verdict(m))
=============================================================================
