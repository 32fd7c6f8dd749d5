-------------------------------- MODULE Field --------------------------------
(* C25: implicit geometry of density fields.  A field is the finite element          *)
(* interpolation of nodal values on a distorted mesh (exact, at rational reference    *)
(* points); bodies are combined by union, intersection and difference; a density that *)
(* varies along one axis only encloses slabs of exactly known volume.                *)
EXTENDS ElementBasis
(* ---- interpolation: positions and values at the reference point r (quarters) of cell c, over Den(ele) ---- *)
Pos(s, c, r) == [k \in 1..Dim(s.ele) |-> SumOver(LAMBDA a : N(s.ele, a, r) * s.pts[s.cells[c][a] + 1][k], 1, NNodes(s.ele))]
Val(s, f, c, r) == SumOver(LAMBDA a : N(s.ele, a, r) * s.rho[f][s.cells[c][a] + 1], 1, NNodes(s.ele))
Q(s, q) == [x |-> Pos(s, q.c, q.r), v |-> [f \in 1..Len(s.rho) |-> Val(s, f, q.c, q.r)]]
(* ---- constructive geometry on the signed values thr - rho (over Den) ---- *)
RECURSIVE Csg(_, _, _)
Csg(t, d, k) == IF t[k].op = "leaf" THEN d[t[k].f]
                ELSE LET a == Csg(t, d, t[k].a)  b == Csg(t, d, t[k].b) IN
                     CASE t[k].op = "or" -> Min2(a, b) [] t[k].op = "and" -> Max2(a, b) [] OTHER -> Max2(a, -b)
Signed(s, q) == LET v == Q(s, q).v IN [f \in 1..Len(s.rho) |-> s.thr[f] * Den(s.ele) - v[f]]
RECURSIVE InBody(_, _, _)
InBody(t, in, k) == IF t[k].op = "leaf" THEN in[t[k].f]
                    ELSE LET a == InBody(t, in, t[k].a)  b == InBody(t, in, t[k].b) IN
                         CASE t[k].op = "or" -> a \/ b [] t[k].op = "and" -> a /\ b [] OTHER -> a /\ ~b
Generic(s, q) == \A f \in 1..Len(s.rho) : Signed(s, q)[f] # 0
OutF(s) == [id |-> s.id, den |-> Den(s.ele), q |-> [k \in 1..Len(s.q) |-> Q(s, s.q[k])],
            csg |-> [t \in 1..Len(s.trees) |-> [k \in 1..Len(s.q) |-> Csg(s.trees[t], Signed(s, s.q[k]), Len(s.trees[t]))]]]
(* ---- slabs: plane values v[1..n+1] at integer stations x, solid where the piecewise linear value is >= t ---- *)
(* every crossing is at x[k] + w * (t - v[k]) / (v[k+1] - v[k]); lengths over the product of the differences *)
Cut(s, k) == LET a == s.v[k]  b == s.v[k + 1] IN                                   \* <<first, last>> solid fraction of interval k as rationals over |b - a| (or 1)
   IF a = b THEN (IF a >= s.t THEN [d |-> 1, lo |-> 0, hi |-> 1] ELSE [d |-> 1, lo |-> 0, hi |-> 0])
   ELSE LET d == Abs(b - a)  c == IF b > a THEN s.t - a ELSE a - s.t  cc == Max2(0, Min2(d, c)) IN
        IF b > a THEN [d |-> d, lo |-> cc, hi |-> d] ELSE [d |-> d, lo |-> 0, hi |-> cc]
Intervals(s) == Len(s.v) - 1
Solid(s, k) == Cut(s, k).hi > Cut(s, k).lo
Joined(s, k) == k > 1 /\ Solid(s, k - 1) /\ Solid(s, k) /\ Cut(s, k - 1).hi = Cut(s, k - 1).d /\ Cut(s, k).lo = 0
OutS(s) == [id |-> s.id, cut |-> [k \in 1..Intervals(s) |-> Cut(s, k)], comps |-> Cardinality({k \in 1..Intervals(s) : Solid(s, k) /\ ~Joined(s, k)}),
            cross |-> Cardinality({k \in 1..Intervals(s) : (s.v[k] > s.t /\ s.v[k + 1] < s.t) \/ (s.v[k] < s.t /\ s.v[k + 1] > s.t)})]
FNext == /\ i < Len(Scens) /\ i' = i + 1 /\ UNCHANGED done
         /\ (Emit => PrintT("@@" \o ToJson(IF Scens[i + 1].kind = "field" THEN OutF(Scens[i + 1]) ELSE OutS(Scens[i + 1]))))
FSpec == Init /\ [][FNext]_<<i, done>>
Fld == i > 0 /\ Scens[i].kind = "field"
(* a field is single valued: two cells meeting at a point give one value *)
SingleValued == Fld => LET s == Scens[i]  T == TLCEval([k \in 1..Len(s.q) |-> Q(s, s.q[k])]) IN \A a, b \in 1..Len(s.q) : T[a].x = T[b].x => T[a].v = T[b].v
(* every queried cell keeps its orientation *)
Valid == Fld => LET s == Scens[i] IN \A c \in 1..Len(s.cells) : \A a \in 1..NCorners(s.ele) : CornerDet(s.ele, [n \in 1..NNodes(s.ele) |-> s.pts[s.cells[c][n] + 1]], a) > 0
(* the combined sign is set algebra on the bodies *)
SetAlgebra == Fld => LET s == Scens[i] IN \A k \in 1..Len(s.q) : Generic(s, s.q[k]) => \A t \in 1..Len(s.trees) :
   (Csg(s.trees[t], Signed(s, s.q[k]), Len(s.trees[t])) < 0) = InBody(s.trees[t], [f \in 1..Len(s.rho) |-> Signed(s, s.q[k])[f] < 0], Len(s.trees[t]))
(* solid and void parts of an interval make up the interval *)
Complement == (i > 0 /\ ~Fld) => LET s == Scens[i] IN \A k \in 1..Intervals(s) :
   LET c == Cut(s, k)  m == Cut([s EXCEPT !.v = [j \in DOMAIN s.v |-> -s.v[j]], !.t = -s.t], k) IN s.v[k] # s.v[k + 1] => (c.hi - c.lo) + (m.hi - m.lo) = c.d
=============================================================================
