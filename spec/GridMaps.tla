------------------------------ MODULE GridMaps ------------------------------
(* C13: index arithmetic of a structured grid.  Cells, nodes and their corners  *)
(* as sets of integer points; ids are positions in lexicographic order.         *)
EXTENDS VLib, Json
CONSTANTS MaxDim, ScenFile, Emit
VARIABLES dims, k
Scens == JsonDeserialize(ScenFile)                       \* [dims, cells, margin]
Cells(d) == (0..d[1] - 1) \X (0..d[2] - 1) \X (0..d[3] - 1)
Nodes(d) == (0..d[1]) \X (0..d[2]) \X (0..d[3])
CellId(d, c) == (c[1] * d[2] + c[2]) * d[3] + c[3]
NodeId(d, n) == (n[1] * (d[2] + 1) + n[2]) * (d[3] + 1) + n[3]
CellOf(d, e) == <<e \div (d[2] * d[3]), (e \div d[3]) % d[2], e % d[3]>>
NodeOf(d, n) == <<n \div ((d[2] + 1) * (d[3] + 1)), (n \div (d[3] + 1)) % (d[2] + 1), n % (d[3] + 1)>>
Corners(c) == {<<c[1] + a, c[2] + b, c[3] + e>> : a, b, e \in {0, 1}}
Near(a, b, m) == \A i \in 1..3 : Abs(a[i] - b[i]) <= m
Dilate(d, S, m) == {e \in 0..(d[1] * d[2] * d[3] - 1) : \E s \in S : Near(CellOf(d, e), CellOf(d, s), m)}
(* the cell of the point with doubled coordinates p: half-open boxes, the last ones closed *)
Slot(x, n) == IF x < 0 \/ x > 2 * n THEN -1 ELSE Min2(x \div 2, n - 1)
PointCell(d, p) == LET s == [i \in 1..3 |-> Slot(p[i], d[i])] IN IF \E i \in 1..3 : s[i] = -1 THEN -1 ELSE CellId(d, s)
Table(d) == [kind |-> "grid", dims |-> d,
             cells |-> [e \in 1..(d[1] * d[2] * d[3]) |-> [ijk |-> CellOf(d, e - 1), nodes |-> SortSet({NodeId(d, n) : n \in Corners(CellOf(d, e - 1))})]],
             nodes |-> [n \in 1..((d[1] + 1) * (d[2] + 1) * (d[3] + 1)) |-> NodeOf(d, n - 1)]]
CeilDiv(a, b) == (a + b - 1) \div b
Up(n, al) == IF al = 0 THEN n ELSE CeilDiv(n, al) * al
(* grid over the box lo..hi with integer cell size h per axis and pad empty cells (origin given or lo - pad h) *)
Fit(f) == [i \in 1..3 |-> LET o == IF f.own THEN f.org[i] ELSE f.lo[i] - f.pad * f.h[i] IN [org |-> o, n |-> Up(Max2(1, CeilDiv(f.hi[i] + f.pad * f.h[i] - o, f.h[i])), f.al)]]
Act(s) == {s.cells[i] : i \in {j \in 1..Len(s.cells) : s.vals[j] > s.thr}}
SOut(s) == [kind |-> "set", id |-> s.id, act |-> SortSet(Act(s)), band |-> SortSet(Dilate(s.dims, Act(s), s.margin) \cup ToSet(s.keep)), dil |-> SortSet(Dilate(s.dims, ToSet(s.cells), s.margin)), pc |-> [i \in 1..Len(s.pts) |-> PointCell(s.dims, s.pts[i])],
            fit |-> Fit(s.fit), vox |-> SortSet({PointCell(s.dims, s.pts[i]) : i \in 1..Len(s.pts)} \ {-1})]
Init == /\ dims \in {<<a, b, c>> : a, b, c \in 1..MaxDim} /\ k = 0
Next == /\ UNCHANGED dims
        /\ \/ k = 0 /\ k' = 1 /\ (Emit => PrintT("@@" \o ToJson(Table(dims))))
           \/ k > 0 /\ dims = <<1, 1, 1>> /\ k <= Len(Scens) /\ k' = k + 1 /\ (Emit => PrintT("@@" \o ToJson(SOut(Scens[k]))))
Spec == Init /\ [][Next]_<<dims, k>>
Bijective == /\ {CellId(dims, c) : c \in Cells(dims)} = 0..(dims[1] * dims[2] * dims[3] - 1)
             /\ \A c \in Cells(dims) : CellOf(dims, CellId(dims, c)) = c
             /\ \A n \in Nodes(dims) : NodeOf(dims, NodeId(dims, n)) = n
             /\ \A n \in Nodes(dims) : \E c \in Cells(dims) : n \in Corners(c)
DilateExtensive == \A e \in 0..(dims[1] * dims[2] * dims[3] - 1) : e \in Dilate(dims, {e}, 1) /\ Dilate(dims, {e}, 2) = Dilate(dims, Dilate(dims, {e}, 1), 1)
=============================================================================
