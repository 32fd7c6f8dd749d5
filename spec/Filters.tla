------------------------------- MODULE Filters -------------------------------
(* C16: distance filters as histograms of squared distances (every weight is a    *)
(* function of the distance alone), the narrow-band sensitivity filter, the exact  *)
(* discrete Helmholtz operator, projection values and volume thresholds.           *)
EXTENDS Elements, Json
CONSTANTS ScenFile, Emit
VARIABLES i
Scens == JsonDeserialize(ScenFile)
D2(p, q) == SumOver(LAMBDA k : (p[k] - q[k]) * (p[k] - q[k]), 1, Len(p))
(* ---- density filter: points pts, radius rn/2, values rho, inspected points q ---- *)
Near(s, q) == {j \in 1..Len(s.pts) : 4 * D2(s.pts[q], s.pts[j]) <= s.rn * s.rn}
HistOf(S, dist(_), val(_)) == LET ds == SortSet({dist(j) : j \in S}) IN
   [k \in 1..Len(ds) |-> LET T == {j \in S : dist(j) = ds[k]} IN <<ds[k], SumOverSet(val, T), Cardinality(T)>>]
Density(s) == [id |-> s.id, kind |-> "density",
   hist |-> [k \in 1..Len(s.qs) |-> HistOf(Near(s, s.qs[k]), LAMBDA j : D2(s.pts[s.qs[k]], s.pts[j]), LAMBDA j : s.rho[j])]]
(* a filter whose weight falls with the distance: linear in d2 stands for any decreasing weight here *)
DensityOK(s) == \A k \in 1..Len(s.qs) : LET N == Near(s, s.qs[k])  w(j) == s.rn * s.rn - 4 * D2(s.pts[s.qs[k]], s.pts[j]) + 1
                    tot == SumOverSet(w, N)  sm == SumOverSet(LAMBDA j : w(j) * s.rho[j], N) IN
   /\ s.qs[k] \in N /\ tot > 0
   /\ sm >= tot * Min({s.rho[j] : j \in N}) /\ sm <= tot * Max({s.rho[j] : j \in N})
   /\ \A j \in N : 4 * D2(s.pts[j], s.pts[s.qs[k]]) <= s.rn * s.rn                        \* neighbourhood is symmetric
(* ---- sensitivity filter on a grid: active cells act (0-based ids), rmin = rm/4 ---- *)
Ijk(s, c) == <<c \div (s.dims[2] * s.dims[3]), (c \div s.dims[3]) % s.dims[2], c % s.dims[3]>>       \* the last axis runs fastest
GridCells(s) == 0..(s.dims[1] * s.dims[2] * s.dims[3] - 1)
NearC(s, c) == {n \in GridCells(s) : 16 * D2(Ijk(s, c), Ijk(s, n)) < s.rm * s.rm}
Sens(s) == [id |-> s.id, kind |-> "sens", hist |-> [k \in 1..Len(s.act) |->
   LET c == s.act[k]  d(n) == D2(Ijk(s, c), Ijk(s, n))  pos(n) == CHOOSE m \in 1..Len(s.act) : s.act[m] = n
       v(n) == IF n \in ToSet(s.act) THEN s.rho[pos(n)] * s.dc[pos(n)] ELSE 0 IN HistOf(NearC(s, c), d, v)]]
(* ---- Helmholtz operator: integer matrices over common denominators ---- *)
Loc(s, c, n) == CHOOSE a \in 1..Len(s.cells[c]) : s.cells[c][a] = n
InCell(s, c, n) == n \in ToSet(s.cells[c])
Side(s, c, k) == Max({s.pts[n + 1][k] : n \in ToSet(s.cells[c])}) - Min({s.pts[n + 1][k] : n \in ToSet(s.cells[c])})
ProdK(F(_), d) == FoldLeft(LAMBDA x, y : x * y, 1, [k \in 1..d |-> F(k)])
Fact(d) == ProdK(LAMBDA k : k, d)
BoxM(s, c, p, q) == ProdK(LAMBDA k : Side(s, c, k) * (IF p[k] = q[k] THEN 2 ELSE 1), Len(p))                         \* over 6^d
BoxK(s, c, p, q) == SumOver(LAMBDA k : (IF p[k] = q[k] THEN 1 ELSE -1) *
       ProdK(LAMBDA j : IF j = k THEN 1 ELSE Side(s, c, j) * Side(s, c, j) * (IF p[j] = q[j] THEN 2 ELSE 1), Len(p)), 1, Len(p))     \* over 6^(d-1) * volume
Jac(s, c) == LET x == [a \in 1..Len(s.cells[c]) |-> s.pts[s.cells[c][a] + 1]] IN [k \in 1..(Len(x) - 1) |-> VSub(x[k + 1], x[1])]
CofRow(J, k) == [p \in 1..Len(J) |-> (IF (k + p) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(J, k, p))]
GradN(s, c, a) == LET J == Jac(s, c) IN IF a > 1 THEN CofRow(J, a - 1) ELSE [p \in 1..Len(J) |-> -SumOver(LAMBDA k : CofRow(J, k)[p], 1, Len(J))]
DetC(s, c) == Abs(Det(Jac(s, c)))
Sim(s) == s.e \in {"TRI3", "TET4"}
Kent(s, x, y) == LET C == {c \in 1..Len(s.cells) : InCell(s, c, x - 1) /\ InCell(s, c, y - 1)} IN
   SumOverSet(LAMBDA c : IF Sim(s) THEN Dot(GradN(s, c, Loc(s, c, x - 1)), GradN(s, c, Loc(s, c, y - 1))) ELSE BoxK(s, c, s.pts[x], s.pts[y]), C)
Ment(s, x, y) == LET C == {c \in 1..Len(s.cells) : InCell(s, c, x - 1) /\ InCell(s, c, y - 1)} IN
   SumOverSet(LAMBDA c : IF Sim(s) THEN DetC(s, c) ELSE BoxM(s, c, s.pts[x], s.pts[y]), C)
Dm(s) == Len(s.pts[1])
Vol1(s) == ProdK(LAMBDA k : Side(s, 1, k), Dm(s))
KDen(s) == IF Sim(s) THEN Fact(Dm(s)) * DetC(s, 1) ELSE Pow(6, Dm(s) - 1) * Vol1(s)
MDen(s) == IF Sim(s) THEN Fact(Dm(s)) * (Dm(s) + 1) * (Dm(s) + 1) ELSE Pow(6, Dm(s))
Nn(s) == Len(s.pts)
(* class of a node under periodic ties along the axes s.per: coordinates modulo the cell *)
Ext(s, k) == Max({s.pts[n][k] : n \in 1..Nn(s)})
Wrap(s, n) == [k \in 1..Dm(s) |-> IF s.per[k] = 1 /\ s.pts[n][k] = Ext(s, k) THEN 0 ELSE s.pts[n][k]]
Helm(s) == [id |-> s.id, kind |-> "helm", K |-> [x \in 1..Nn(s) |-> [y \in 1..Nn(s) |-> Kent(s, x, y)]], M |-> [x \in 1..Nn(s) |-> [y \in 1..Nn(s) |-> Ment(s, x, y)]],
            kden |-> KDen(s), mden |-> MDen(s), cls |-> [n \in 1..Nn(s) |-> Wrap(s, n)]]
HelmOK(s) == \A x \in 1..Nn(s) : /\ SumOver(LAMBDA y : Kent(s, x, y), 1, Nn(s)) = 0           \* constants have no gradient
                                  /\ \A y \in 1..Nn(s) : Kent(s, x, y) = Kent(s, y, x) /\ Ment(s, x, y) = Ment(s, y, x)
HelmVol(s) == SumOver(LAMBDA x : SumOver(LAMBDA y : Ment(s, x, y), 1, Nn(s)), 1, Nn(s)) =                \* the mass adds up to the volume
              IF Sim(s) THEN (Dm(s) + 1) * (Dm(s) + 1) * SumOver(LAMBDA c : DetC(s, c), 1, Len(s.cells)) ELSE Pow(6, Dm(s)) * Len(s.cells) * Vol1(s)
(* ---- nodal volume weights of every type, over 360 ---- *)
W(e, a) == LET c == a <= NCorners(e) IN
   CASE e = "TRI3" -> 120 [] e = "TET4" -> 90 [] e = "QUAD4" -> 90 [] e = "HEX8" -> 45
     [] e = "TRI6" -> IF c THEN 0 ELSE 120 [] e = "TET10" -> IF c THEN -18 ELSE 72
     [] e = "QUAD8" -> IF c THEN -30 ELSE 120 [] e = "QUAD9" -> IF c THEN 10 ELSE IF a < 9 THEN 40 ELSE 160
     [] e = "HEX20" -> IF c THEN -45 ELSE 60
Second(e) == NNodes(e) > NCorners(e)
Mean(e, f) == LET sm == SumSeq(f)  mx == Max(RangeOf(f)) IN                                       \* mean of the monomial, over 360
   IF sm = 0 THEN 360 ELSE IF sm = 1 THEN (IF ~Simplex(e) THEN 360 ELSE 720 \div (Dim(e) + 1))
   ELSE IF mx = 2 THEN (IF ~Simplex(e) THEN 480 ELSE IF Dim(e) = 2 THEN 240 ELSE 144) ELSE (IF ~Simplex(e) THEN 360 ELSE IF Dim(e) = 2 THEN 120 ELSE 72)
Monos(e) == {f \in [1..Dim(e) -> 0..2] : SumSeq(f) <= (IF Second(e) THEN 2 ELSE 1)}
WeightsIntegrate == \A e \in Types : \A f \in Monos(e) :
   SumOver(LAMBDA a : W(e, a) * ProdK(LAMBDA k : Pow(RefNodes(e)[a][k], f[k]), Dim(e)), 1, NNodes(e)) = Mean(e, f)
Integ(s) == [id |-> s.id, kind |-> "integ", w |-> [n \in 1..Nn(s) |-> SumOverSet(LAMBDA c : W(s.e, Loc(s, c, n - 1)), {c \in 1..Len(s.cells) : InCell(s, c, n - 1)})]]
(* ---- projection: argument k * ln(2) / 2 gives 2^k / (1 + 2^k) ---- *)
H(k) == IF k >= 0 THEN <<Pow(2, k), Pow(2, k) + 1>> ELSE <<1, Pow(2, -k) + 1>>
Proj(s) == [id |-> s.id, kind |-> "proj", tab |-> [j \in 1..(2 * s.n + 1) |-> <<j - s.n - 1, H(j - s.n - 1)[1], H(j - s.n - 1)[2]>>]]
ProjOK(s) == \A k \in -14..14 : /\ H(k)[1] * H(-k)[2] + H(-k)[1] * H(k)[2] = H(k)[2] * H(-k)[2]           \* H(x) + H(-x) = 1
                             /\ H(k)[1] > 0 /\ H(k)[1] < H(k)[2]
                             /\ (k < 14 => H(k)[1] * H(k + 1)[2] < H(k + 1)[1] * H(k)[2])
(* ---- threshold for a volume fraction num/den of n values: linear percentile ---- *)
Sorted(s) == SortSeq(s.rho, <)
PosNum(s) == (s.den - s.num) * (Len(s.rho) - 1)
Thr(s) == LET lo == PosNum(s) \div s.den  fr == PosNum(s) % s.den  v == Sorted(s) IN
          IF fr = 0 THEN v[lo + 1] * s.den ELSE v[lo + 1] * (s.den - fr) + v[lo + 2] * fr                     \* over den
Above(s) == Cardinality({j \in 1..Len(s.rho) : s.rho[j] * s.den > Thr(s)})
ThrR(s) == [id |-> s.id, kind |-> "thr", t |-> Thr(s), above |-> Above(s)]
ThrOK(s) == Cardinality(ToSet(s.rho)) = Len(s.rho) => Abs(s.den * Above(s) - s.num * Len(s.rho)) <= s.den
Out(s) == CASE s.kind = "density" -> Density(s) [] s.kind = "sens" -> Sens(s) [] s.kind = "helm" -> Helm(s) [] s.kind = "integ" -> Integ(s)
            [] s.kind = "proj" -> Proj(s) [] s.kind = "thr" -> ThrR(s)
Init == i = 0
Next == i < Len(Scens) /\ i' = i + 1 /\ (Emit => PrintT("@@" \o ToJson(Out(Scens[i + 1]))))
Spec == Init /\ [][Next]_i
Sound == IF i = 0 THEN WeightsIntegrate ELSE LET s == Scens[i] IN
   CASE s.kind = "density" -> DensityOK(s) [] s.kind = "helm" -> HelmOK(s) /\ HelmVol(s) [] s.kind = "proj" -> ProjOK(s) [] s.kind = "thr" -> ThrOK(s)
     [] s.kind = "sens" -> \A c \in ToSet(s.act) : c \in NearC(s, c) [] OTHER -> TRUE
=============================================================================
