---------------------------- MODULE ElementBasis ----------------------------
(* C18: the shape functions of every element type in exact arithmetic (reference *)
(* coordinates in quarters), the polynomial space each must reproduce, and exact  *)
(* volumes, moments, face areas and centroids of affine images of boxes.          *)
EXTENDS Elements, Json
CONSTANTS ScenFile, Emit
VARIABLES i, done
Scens == JsonDeserialize(ScenFile)
(* ---- shape functions: numerator over Den(e) at the point r (quarters), node a ---- *)
RN(e, a) == [k \in 1..Dim(e) |-> 2 * RefNodes(e)[a][k]]                                  \* node in quarters: 0, 2, 4
Lin(n, r) == IF n = 0 THEN 4 - r ELSE r                                                   \* over 4
Qua(n, r) == CASE n = 0 -> (4 - r) * (2 - r) [] n = 2 -> 2 * r * (4 - r) [] OTHER -> r * (r - 2)   \* over 8
Prod(F(_), d) == FoldLeft(LAMBDA x, y : x * y, 1, [k \in 1..d |-> F(k)])
Bary(e, r) == [k \in 1..(Dim(e) + 1) |-> IF k = 1 THEN 4 - SumSeq(r) ELSE r[k - 1]]       \* over 4
BaryNode(e, n) == [k \in 1..(Dim(e) + 1) |-> IF k = 1 THEN 2 - SumSeq(RefNodes(e)[n]) ELSE RefNodes(e)[n][k - 1]]   \* over 2
Den(e) == CASE e \in {"TRI3", "TET4"} -> 4 [] e \in {"TRI6", "TET10"} -> 8 [] e = "QUAD4" -> 16 [] e = "HEX8" -> 64 [] e = "QUAD9" -> 64 [] e = "QUAD8" -> 32 [] e = "HEX20" -> 128
SimN(e, n, r) == LET l == Bary(e, r)  b == BaryNode(e, n)  v == {k \in 1..(Dim(e) + 1) : b[k] = 2}  m == {k \in 1..(Dim(e) + 1) : b[k] = 1} IN
   IF NNodes(e) = NCorners(e) THEN l[CHOOSE k \in v : TRUE]
   ELSE IF v # {} THEN LET x == l[CHOOSE k \in v : TRUE] IN x * (x - 2)                    \* l(2l-1), l = x/4 -> x(x-2)/8
   ELSE LET p == CHOOSE k \in m : TRUE  q == CHOOSE k \in m : k # p IN 2 * l[p] * l[q]     \* 4 l l' -> x y / 4
SerN(e, n, r) == LET d == Dim(e)  s == [k \in 1..d |-> r[k] - 2]  z == [k \in 1..d |-> RN(e, n)[k] - 2]  \* doubled xi and node signs*2
                     sg(k) == IF z[k] = 0 THEN 0 ELSE IF z[k] > 0 THEN 1 ELSE -1
                     mid == {k \in 1..d : z[k] = 0} IN
   IF mid = {} THEN Prod(LAMBDA k : 2 + s[k] * sg(k), d) * (SumOver(LAMBDA k : s[k] * sg(k), 1, d) - 2 * (d - 1))
   ELSE LET m == CHOOSE k \in mid : TRUE IN 2 * (4 - s[m] * s[m]) * Prod(LAMBDA k : IF k = m THEN 1 ELSE 2 + s[k] * sg(k), d)
N(e, n, r) == IF Simplex(e) THEN SimN(e, n, r)
              ELSE IF e \in {"QUAD8", "HEX20"} THEN SerN(e, n, r)
              ELSE IF e = "QUAD9" THEN Prod(LAMBDA k : Qua(RN(e, n)[k], r[k]), 2)
              ELSE Prod(LAMBDA k : Lin(RN(e, n)[k], r[k]), Dim(e))
(* ---- the space: exponents of the monomials ---- *)
Exps(e) == LET d == Dim(e)  All == [1..d -> 0..2]  deg(x) == SumSeq(x)  sup(x) == Cardinality({k \in 1..d : x[k] = 2}) IN
   CASE e \in {"TRI3", "TET4"} -> {x \in All : deg(x) <= 1} [] e \in {"TRI6", "TET10"} -> {x \in All : deg(x) <= 2}
     [] e \in {"QUAD4", "HEX8"} -> {x \in All : sup(x) = 0} [] e = "QUAD9" -> All [] OTHER -> {x \in All : sup(x) <= 1}
Mono(x, r) == Prod(LAMBDA k : Pow(r[k], x[k]), Len(r))
Points(e) == IF Dim(e) = 2 THEN [1..2 -> 0..4] ELSE [1..3 -> {0, 1, 2, 4}]
Kronecker(e) == \A a, b \in 1..NNodes(e) : N(e, a, RN(e, b)) = (IF a = b THEN Den(e) ELSE 0)
Reproduces(e) == \A x \in Exps(e) : \A r \in Points(e) : SumOver(LAMBDA a : N(e, a, r) * Mono(x, RN(e, a)), 1, NNodes(e)) = Den(e) * Mono(x, r)
Unisolvent(e) == Cardinality(Exps(e)) = NNodes(e)
BasisExact == i = 0 => \A e \in Types : Kronecker(e) /\ Reproduces(e) /\ Unisolvent(e)
(* ---- exact geometry of x = A X + b over the box 0..n (X) ---- *)
Vol(s) == FoldLeft(LAMBDA x, y : x * y, 1, s.n)
DetA(s) == Det(s.A)
M1(s, p) == Vol(s) * (SumOver(LAMBDA j : s.A[p][j] * s.n[j], 1, Len(s.n)) + 2 * s.b[p])                                     \* 2 * integral of x_p over X
EX2(s, j, k) == IF j = k THEN 4 * s.n[j] * s.n[j] ELSE 3 * s.n[j] * s.n[k]                                                   \* 12 * mean of X_j X_k
M2(s, p, q) == Vol(s) * (SumOver(LAMBDA j : SumOver(LAMBDA k : s.A[p][j] * s.A[q][k] * EX2(s, j, k), 1, Len(s.n)), 1, Len(s.n))
               + 6 * (s.b[q] * SumOver(LAMBDA j : s.A[p][j] * s.n[j], 1, Len(s.n)) + s.b[p] * SumOver(LAMBDA j : s.A[q][j] * s.n[j], 1, Len(s.n))) + 12 * s.b[p] * s.b[q])
Cof(s, a) == [p \in 1..Len(s.n) |-> (IF (p + a) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(s.A, p, a))]                           \* area vector of a unit face with normal X_a
FaceX(s, a) == FoldLeft(LAMBDA x, y : x * y, 1, [k \in 1..Len(s.n) |-> IF k = a THEN 1 ELSE s.n[k]])
Cen2(s, a, side) == [p \in 1..Len(s.n) |-> SumOver(LAMBDA j : s.A[p][j] * (IF j = a THEN 2 * side * s.n[j] ELSE s.n[j]), 1, Len(s.n)) + 2 * s.b[p]]
Face(s, a, side) == [axis |-> a, side |-> side, area2 |-> SumOver(LAMBDA p : Cof(s, a)[p] * Cof(s, a)[p], 1, Len(s.n)), mult |-> FaceX(s, a), cen2 |-> Cen2(s, a, side)]
Out(s) == LET d == Len(s.n) IN
   [id |-> s.id, vol |-> DetA(s) * Vol(s), m1 |-> [p \in 1..d |-> DetA(s) * M1(s, p)], m2 |-> [p \in 1..d |-> [q \in 1..d |-> DetA(s) * M2(s, p, q)]],
    faces |-> [k \in 1..(2 * d) |-> Face(s, (k + 1) \div 2, k % 2)], exps |-> SetToSeq(Exps(s.ele))]
Init == i = 0 /\ done = FALSE
Next == /\ i < Len(Scens) /\ i' = i + 1 /\ UNCHANGED done /\ (Emit => PrintT("@@" \o ToJson(Out(Scens[i + 1]))))
Spec == Init /\ [][Next]_<<i, done>>
(* divergence theorem on the emitted areas: opposite faces cancel, and x.n integrates to d * volume *)
Divergence == i > 0 => LET s == Scens[i]  d == Len(s.n) IN
   SumOver(LAMBDA a : FaceX(s, a) * SumOver(LAMBDA p : Cof(s, a)[p] * (Cen2(s, a, 1)[p] - Cen2(s, a, 0)[p]), 1, d), 1, d) = 2 * d * DetA(s) * Vol(s)
=============================================================================
