-------------------------------- MODULE Plies --------------------------------
(* C22: stacks of plies in exact arithmetic.  Rotations have rational entries     *)
(* (3-4-5 and the like), thicknesses are integers, so that rotated stiffnesses,    *)
(* laminate integrals, plate virtual work and layered-solid virtual work are       *)
(* integers over known denominators.                                               *)
EXTENDS VLib, Json
CONSTANTS ScenFile, Emit
VARIABLES i
Scens == JsonDeserialize(ScenFile)
(* ---- tensors from Voigt matrices (rows of integers) ---- *)
V2(a, b) == IF a = b THEN a ELSE 3
V3(a, b) == IF a = b THEN a ELSE 9 - a - b                                  \* 23 -> 4, 13 -> 5, 12 -> 6
Ten(C, V(_, _), d) == [a \in 1..d |-> [b \in 1..d |-> [c \in 1..d |-> [e \in 1..d |-> C[V(a, b)][V(c, e)]]]]]
T2(C) == Ten(C, V2, 2)
T3(C) == Ten(C, V3, 3)
(* rotate one index after the other *)
Rot1(T, R, d) == [a \in 1..d |-> [b \in 1..d |-> [c \in 1..d |-> [e \in 1..d |-> SumOver(LAMBDA p : R[a][p] * T[p][b][c][e], 1, d)]]]]
Cyc(T, d) == [a \in 1..d |-> [b \in 1..d |-> [c \in 1..d |-> [e \in 1..d |-> T[e][a][b][c]]]]]
RECURSIVE RotN(_, _, _, _)
RotN(T, Rs, d, n) == IF n = 0 THEN T ELSE RotN(TLCEval(Cyc(TLCEval(Rot1(T, Rs[n], d)), d)), Rs, d, n - 1)
Rot4(T, R, d) == RotN(T, <<R, R, R, R>>, d, 4)
Rot2(A, R, d) == [a \in 1..d |-> [b \in 1..d |-> SumOver(LAMBDA p : SumOver(LAMBDA q : R[a][p] * R[b][q] * A[p][q], 1, d), 1, d)]]
DDot(T, e, d) == [a \in 1..d |-> [b \in 1..d |-> SumOver(LAMBDA p : SumOver(LAMBDA q : T[a][b][p][q] * e[p][q], 1, d), 1, d)]]
R2(cs) == <<<<cs[1], -cs[2]>>, <<cs[2], cs[1]>>>>
D2(cs) == <<<<-cs[2], -cs[1]>>, <<cs[1], -cs[2]>>>>                          \* derivative of the rotation with respect to its angle
DRot4(T, R, D, d) == LET X == [n \in 1..4 |-> TLCEval(RotN(T, [m \in 1..4 |-> IF m = n THEN D ELSE R], d, 4))] IN
   [a \in 1..d |-> [b \in 1..d |-> [c \in 1..d |-> [e \in 1..d |-> X[1][a][b][c][e] + X[2][a][b][c][e] + X[3][a][b][c][e] + X[4][a][b][c][e]]]]]
Symm(T, d) == \A a, b, c, e \in 1..d : T[a][b][c][e] = T[b][a][c][e] /\ T[a][b][c][e] = T[c][e][a][b]
Tr1(T, d) == SumOver(LAMBDA a : SumOver(LAMBDA b : T[a][a][b][b], 1, d), 1, d)
Tr2(T, d) == SumOver(LAMBDA a : SumOver(LAMBDA b : T[a][b][a][b], 1, d), 1, d)
(* ---- laminate: layers [C, G, al, cs, t], z doubled; results over 625, 5000, 15000 and 25, 15625.. ---- *)
Zs(L) == LET H == SumSeq([k \in 1..Len(L) |-> L[k].t]) IN [k \in 1..(Len(L) + 1) |-> -H + 2 * SumSeq([m \in 1..(k - 1) |-> L[m].t])]
Dz(L, k, p) == LET z == Zs(L) IN Pow(z[k + 1], p) - Pow(z[k], p)
Bar(l) == Rot4(T2(l.C), R2(l.cs), 2)
Am(L) == LET X == TLCEval([k \in 1..Len(L) |-> Bar(L[k])]) IN [p \in 1..3 |-> [a \in 1..2 |-> [b \in 1..2 |-> [c \in 1..2 |-> [e \in 1..2 |-> SumOver(LAMBDA k : X[k][a][b][c][e] * Dz(L, k, p), 1, Len(L))]]]]]
Shear(L) == LET X == TLCEval([k \in 1..Len(L) |-> Rot2(L[k].G, R2(L[k].cs), 2)]) IN [a \in 1..2 |-> [b \in 1..2 |-> SumOver(LAMBDA k : X[k][a][b] * L[k].t, 1, Len(L))]]
SigT(l) == Rot2(DDot(T2(l.C), l.al, 2), R2(l.cs), 2)                         \* stress per degree, rotated with the ply (over 25)
Ther(L) == LET X == TLCEval([k \in 1..Len(L) |-> SigT(L[k])]) IN [p \in 1..3 |-> [a \in 1..2 |-> [b \in 1..2 |-> SumOver(LAMBDA k : X[k][a][b] * Dz(L, k, p), 1, Len(L))]]]
DAngle(L, k) == LET X == TLCEval(DRot4(T2(L[k].C), R2(L[k].cs), D2(L[k].cs), 2)) IN [p \in 1..3 |-> [a \in 1..2 |-> [b \in 1..2 |-> [c \in 1..2 |-> [e \in 1..2 |-> X[a][b][c][e] * Dz(L, k, p)]]]]]
(* thickness derivative of the integrals (degree three in the thickness, so the five-point difference is exact): times 12 *)
DThick(L, k) == LET F(h) == Am([L EXCEPT ![k].t = @ + h])  a1 == TLCEval(F(1))  b1 == TLCEval(F(-1))  a2 == TLCEval(F(2))  b2 == TLCEval(F(-2)) IN
   [p \in 1..3 |-> [a \in 1..2 |-> [b \in 1..2 |-> [c \in 1..2 |-> [e \in 1..2 |-> 8 * (a1[p][a][b][c][e] - b1[p][a][b][c][e]) - (a2[p][a][b][c][e] - b2[p][a][b][c][e])]]]]]
Lam(s) == LET X == TLCEval(Am(s.L))  Y == Ther(s.L) IN [id |-> s.id, kind |-> "lam", z2 |-> Zs(s.L), a |-> X[1], b |-> X[2], d |-> X[3], g |-> Shear(s.L), th |-> Y,
   da |-> IF s.der = 1 THEN [k \in 1..Len(s.L) |-> DAngle(s.L, k)] ELSE <<>>, dt |-> IF s.der = 1 THEN [k \in 1..Len(s.L) |-> DThick(s.L, k)] ELSE <<>>]
Rev(L) == [k \in 1..Len(L) |-> L[Len(L) + 1 - k]]
LamOK(s) == LET X == TLCEval(Am(s.L))  Y == TLCEval(Am(Rev(s.L))) IN /\ \A p \in 1..3 : Symm(X[p], 2)
   /\ Y[1] = X[1] /\ Y[3] = X[3] /\ (\A a, b, c, e \in 1..2 : Y[2][a][b][c][e] = -X[2][a][b][c][e])
   /\ (s.L = Rev(s.L) => \A a, b, c, e \in 1..2 : X[2][a][b][c][e] = 0)
   /\ Tr1(X[1], 2) = 2 * 625 * SumOver(LAMBDA k : s.L[k].t * Tr1(T2(s.L[k].C), 2), 1, Len(s.L))            \* invariants of the ply survive rotation
   /\ Tr2(X[1], 2) = 2 * 625 * SumOver(LAMBDA k : s.L[k].t * Tr2(T2(s.L[k].C), 2), 1, Len(s.L))
   /\ \A k \in 1..Len(s.L) : DDot(Rot4(T2(s.L[k].C), R2(s.L[k].cs), 2), Rot2(s.L[k].al, R2(s.L[k].cs), 2), 2) = [a \in 1..2 |-> [b \in 1..2 |-> 625 * SigT(s.L[k])[a][b]]]
(* ---- Mindlin point: gw (3x2), gt (2x2), th (2), A B D (Voigt), G, NT, MT, nl ---- *)
Sy(g) == [a \in 1..2 |-> [b \in 1..2 |-> g[a][b] + g[b][a]]]                                             \* doubled
Eps2(s, gw) == [a \in 1..2 |-> [b \in 1..2 |-> gw[a][b] + gw[b][a] + (IF s.nl = 1 THEN gw[3][a] * gw[3][b] ELSE 0)]]
Gam(gw, th) == [a \in 1..2 |-> gw[3][a] + th[a]]
Nn(s, gw, gt) == LET x == DDot(T2(s.A), Eps2(s, gw), 2)  y == DDot(T2(s.B), Sy(gt), 2) IN [a \in 1..2 |-> [b \in 1..2 |-> x[a][b] + y[a][b] - 2 * s.NT[a][b]]]     \* doubled
Mm(s, gw, gt) == LET x == DDot(T2(s.B), Eps2(s, gw), 2)  y == DDot(T2(s.D), Sy(gt), 2) IN [a \in 1..2 |-> [b \in 1..2 |-> x[a][b] + y[a][b] - 2 * s.MT[a][b]]]
Qq(s, gw, th) == MatVec(s.G, Gam(gw, th))
Qw2(s, gw, gt, th) == LET N == Nn(s, gw, gt) IN [a \in 1..2 |-> 2 * Qq(s, gw, th)[a] + (IF s.nl = 1 THEN SumOver(LAMBDA b : N[a][b] * gw[3][b], 1, 2) ELSE 0)]
En(s, gw, gt, th) == LET e == Eps2(s, gw)  k == Sy(gt)  D4(T, x, y) == SumOver(LAMBDA a : SumOver(LAMBDA b : DDot(T, x, 2)[a][b] * y[a][b], 1, 2), 1, 2)
       C2(x, y) == SumOver(LAMBDA a : SumOver(LAMBDA b : x[a][b] * y[a][b], 1, 2), 1, 2) IN          \* energy times 8
   D4(T2(s.A), e, e) + 2 * D4(T2(s.B), k, e) + D4(T2(s.D), k, k) + 4 * Dot(Qq(s, gw, th), Gam(gw, th)) - 4 * C2(s.NT, e) - 4 * C2(s.MT, k)
Mind(s) == [id |-> s.id, kind |-> "mind", eps2 |-> Eps2(s, s.gw), kap2 |-> Sy(s.gt), gam |-> Gam(s.gw, s.th), n2 |-> Nn(s, s.gw, s.gt), m2 |-> Mm(s, s.gw, s.gt), q |-> Qq(s, s.gw, s.th), qw2 |-> Qw2(s, s.gw, s.gt, s.th)]
Bump(M, r, c, h) == [M EXCEPT ![r][c] = @ + h]
Five(F(_)) == 8 * (F(1) - F(-1)) - (F(2) - F(-2))                                                        \* 12 F'(0), exact to degree four
MindOK(s) == /\ \A r \in 1..2 : \A c \in 1..2 : Five(LAMBDA h : En(s, Bump(s.gw, r, c, h), s.gt, s.th)) = 12 * 4 * Nn(s, s.gw, s.gt)[r][c]
             /\ \A c \in 1..2 : Five(LAMBDA h : En(s, Bump(s.gw, 3, c, h), s.gt, s.th)) = 12 * 4 * Qw2(s, s.gw, s.gt, s.th)[c]
             /\ \A r \in 1..2 : \A c \in 1..2 : Five(LAMBDA h : En(s, s.gw, Bump(s.gt, r, c, h), s.th)) = 12 * 4 * Mm(s, s.gw, s.gt)[r][c]
             /\ \A r \in 1..2 : Five(LAMBDA h : En(s, s.gw, s.gt, [s.th EXCEPT ![r] = @ + h])) = 12 * 8 * Qq(s, s.gw, s.th)[r]
(* ---- plate on [0,a]x[0,b]: affine u (5 rows <<1, x, y>>) tested with affine v: virtual work times 24 ---- *)
Mo(a, b) == <<<<12 * a * b, 6 * a * a * b, 6 * a * b * b>>, <<6 * a * a * b, 4 * a * a * a * b, 3 * a * a * b * b>>, <<6 * a * b * b, 3 * a * a * b * b, 4 * a * b * b * b>>>>     \* 12 * integrals of products of (1, x, y)
Gr(u, c) == <<u[c][2], u[c][3]>>
Plate(s) == LET gw == <<Gr(s.u, 1), Gr(s.u, 2), Gr(s.u, 3)>>  gt == <<Gr(s.u, 4), Gr(s.u, 5)>>
      N2 == Nn(s, gw, gt)  M2 == Mm(s, gw, gt)
      Th == <<s.u[4], s.u[5]>>
      Qc(a) == [m \in 1..3 |-> SumOver(LAMBDA b : s.G[a][b] * (Th[b][m] + (IF m = 1 THEN gw[3][b] ELSE 0)), 1, 2)]        \* Q_a as an affine function
      Mt == Mo(s.a, s.b)
      IQ(a, f) == SumOver(LAMBDA m : SumOver(LAMBDA n : Qc(a)[m] * f[n] * Mt[m][n], 1, 3), 1, 3)                            \* 12 * integral of Q_a f
      C(x, v, c) == x[1] * Gr(v, c)[1] + x[2] * Gr(v, c)[2]
      W(v) == 12 * s.a * s.b * (C(N2[1], v, 1) + C(N2[2], v, 2) + C(M2[1], v, 4) + C(M2[2], v, 5)
                 + (IF s.nl = 1 THEN SumOver(LAMBDA a : SumOver(LAMBDA b : N2[a][b] * gw[3][b], 1, 2) * Gr(v, 3)[a], 1, 2) ELSE 0))
              + 2 * SumOver(LAMBDA a : IQ(a, <<Gr(v, 3)[a], 0, 0>>) + IQ(a, v[3 + a]), 1, 2) IN
   [id |-> s.id, kind |-> "plate", w24 |-> [k \in 1..Len(s.v) |-> W(s.v[k])]]
(* ---- three dimensions: rotation by R / den ---- *)
K3(n) == <<<<0, -n[3], n[2]>>, <<n[3], 0, -n[1]>>, <<-n[2], n[1], 0>>>>
MM(A, B) == [r \in 1..Len(A) |-> [c \in 1..Len(B[1]) |-> SumOver(LAMBDA k : A[r][k] * B[k][c], 1, Len(B))]]
AxisR(s) == LET K == K3(s.ax)  Q == MM(K, K) IN [a \in 1..3 |-> [b \in 1..3 |-> (IF a = b THEN 5 * s.nr * s.nr ELSE 0) + s.cs[2] * s.nr * K[a][b] + (5 - s.cs[1]) * Q[a][b]]]
AxisOK(s) == LET R == AxisR(s)  d == 5 * s.nr * s.nr IN MM(R, Transpose(R)) = [a \in 1..3 |-> [b \in 1..3 |-> IF a = b THEN d * d ELSE 0]] /\ MatVec(R, s.ax) = [a \in 1..3 |-> d * s.ax[a]] /\ Det(R) > 0
ToV(T) == LET P == <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<1, 2>>>> IN [r \in 1..6 |-> [c \in 1..6 |-> T[P[r][1]][P[r][2]][P[c][1]][P[c][2]]]]
Turned(s) == LET R == TLCEval(AxisR(s)) IN [C |-> ToV(Rot4(T3(s.C), R, 3)), al |-> Rot2(s.al, R, 3), den |-> 5 * s.nr * s.nr]
Rot3(s) == LET X == TLCEval(Turned(s)) IN [id |-> s.id, kind |-> "rot3", C |-> X.C, al |-> X.al, den |-> X.den, R |-> AxisR(s)]
Rot3OK(s) == AxisOK(s) /\ LET T == T3(s.C)  R == TLCEval(AxisR(s))  X == TLCEval(Rot4(T, R, 3))  den == 5 * s.nr * s.nr  f == den * den * den * den IN Symm(X, 3) /\ Tr1(X, 3) = f * Tr1(T, 3) /\ Tr2(X, 3) = f * Tr2(T, 3) /\ ToV(T) = s.C
(* ---- engineering constants: nu in tenths; integer compliance times 10 * E1 * E2 * E3 ---- *)
Ortho(s) == LET E == s.E  P == 10 * E[1] * E[2] * E[3]
      S == <<<<P \div E[1], -(s.nu[1] * (P \div 10)) \div E[1], -(s.nu[2] * (P \div 10)) \div E[1]>>, <<-(s.nu[1] * (P \div 10)) \div E[1], P \div E[2], -(s.nu[3] * (P \div 10)) \div E[2]>>, <<-(s.nu[2] * (P \div 10)) \div E[1], -(s.nu[3] * (P \div 10)) \div E[2], P \div E[3]>>>> IN
   [id |-> s.id, kind |-> "ortho", adj |-> [r \in 1..3 |-> [c \in 1..3 |-> (IF (r + c) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(S, c, r))]], det |-> Det(S), P |-> P,
    q2 |-> [d |-> S[1][1] * S[2][2] - S[1][2] * S[1][2], n11 |-> S[2][2], n22 |-> S[1][1], n12 |-> -S[1][2]]]                  \* plane stress: in-plane compliance inverted
OrthoOK(s) == LET o == Ortho(s) IN o.det > 0
(* ---- layered solid: cells of a grid in the plane, plies through z; trilinear fields as terms [c, k, m] with monomial m; inv = inverse of the (unimodular) map ---- *)
Mom(lo, hi, p) == CASE p = 0 -> 6 * (hi - lo) [] p = 1 -> 3 * (hi * hi - lo * lo) [] OTHER -> 2 * (hi * hi * hi - lo * lo * lo)          \* 6 * integral of x^p
DM(m, a) == IF m[a] = 0 THEN 0 ELSE 1                                       \* derivative of a multilinear monomial: coefficient; exponents drop by one
Drop(m, a) == [m EXCEPT ![a] = 0]
Int3(bx, m, n) == Mom(bx[1][1], bx[1][2], m[1] + n[1]) * Mom(bx[2][1], bx[2][2], m[2] + n[2]) * Mom(bx[3][1], bx[3][2], m[3] + n[3])
Zp(s, k) == SumSeq([j \in 1..(k - 1) |-> s.t[j]])
Box(s, c, k) == <<<<c[1], c[1] + 1>>, <<c[2], c[2] + 1>>, <<Zp(s, k), Zp(s, k) + s.t[k]>>>>
One == <<0, 0, 0>>
G4(s, bx, u, v) == [p \in 1..3 |-> [a \in 1..3 |-> [q \in 1..3 |-> [b \in 1..3 |->
      SumSeq([x \in 1..Len(u) |-> SumSeq([y \in 1..Len(v) |-> IF u[x].c # p \/ v[y].c # q THEN 0 ELSE
          u[x].k * v[y].k * SumOver(LAMBDA e : SumOver(LAMBDA f : IF DM(u[x].m, e) * DM(v[y].m, f) = 0 THEN 0 ELSE s.inv[e][a] * s.inv[f][b] * Int3(bx, Drop(u[x].m, e), Drop(v[y].m, f)), 1, 3), 1, 3)])])]]]]
F2(s, bx, v) == [q \in 1..3 |-> [b \in 1..3 |-> SumSeq([y \in 1..Len(v) |-> IF v[y].c # q THEN 0 ELSE v[y].k * SumOver(LAMBDA f : IF DM(v[y].m, f) = 0 THEN 0 ELSE s.inv[f][b] * Int3(bx, One, Drop(v[y].m, f)), 1, 3)])]]
Solid(s) == [id |-> s.id, kind |-> "solid", mats |-> [m \in 1..Len(s.mats) |-> Turned(s.mats[m])], q |-> [k \in 1..Len(s.t) |-> [p \in 0..2 |-> Mom(Zp(s, k), Zp(s, k) + s.t[k], p)]], g |-> [v \in 1..Len(s.v) |-> [c \in 1..Len(s.cells) |-> [k \in 1..Len(s.t) |-> G4(s, Box(s, s.cells[c], k), s.u, s.v[v])]]],
             f |-> [v \in 1..Len(s.v) |-> [c \in 1..Len(s.cells) |-> [k \in 1..Len(s.t) |-> F2(s, Box(s, s.cells[c], k), s.v[v])]]]]
SolidOK(s) == \A c \in 1..Len(s.cells) : LET whole == <<<<s.cells[c][1], s.cells[c][1] + 1>>, <<s.cells[c][2], s.cells[c][2] + 1>>, <<0, Zp(s, Len(s.t) + 1)>>>>
                                           W == TLCEval(G4(s, whole, s.u, s.v[1]))  X == TLCEval([k \in 1..Len(s.t) |-> G4(s, Box(s, s.cells[c], k), s.u, s.v[1])]) IN                                           \* plies add up to the cell
   \A p, a, q, b \in 1..3 : W[p][a][q][b] = SumOver(LAMBDA k : X[k][p][a][q][b], 1, Len(s.t))
(* ---- double-wall vessel: structure of the mesh and class of every ply ---- *)
NId(s, a, j, k) == (a * s.nc + (j % s.nc)) * (s.nf + 3) + k
Ring(s) == [x \in 1..((s.mc + s.md) * s.nc * (s.nf + 2)) |-> LET z == x - 1  k == z % (s.nf + 2)  j == (z \div (s.nf + 2)) % s.nc  a == z \div ((s.nf + 2) * s.nc) IN
   [n |-> <<NId(s, a, j, k), NId(s, a, j + 1, k), NId(s, a + 1, j + 1, k), NId(s, a + 1, j, k), NId(s, a, j, k + 1), NId(s, a, j + 1, k + 1), NId(s, a + 1, j + 1, k + 1), NId(s, a + 1, j, k + 1)>>,
    z |-> IF k = 0 THEN 0 ELSE IF k = s.nf + 1 THEN 2 ELSE 1, d |-> a >= s.mc]]
RECURSIVE Classes(_, _, _)
Classes(l, dome, hoops) == IF l = <<>> THEN <<>> ELSE LET h == Head(l) IN                   \* scanning the layup: 0 = hoop, else the sign of the helix
   IF h = 0 THEN <<(IF dome THEN (IF hoops % 2 = 0 THEN 1 ELSE -1) ELSE 0)>> \o Classes(Tail(l), dome, hoops + 1) ELSE <<h>> \o Classes(Tail(l), dome, hoops)
Copv(s) == [id |-> s.id, kind |-> "copv", cells |-> Ring(s), cyl |-> Classes(s.lay, FALSE, 0), dome |-> Classes(s.lay, s.drop = 1, 0)]
CopvOK(s) == LET R == Ring(s)  N == (s.mc + s.md + 1) * s.nc * (s.nf + 3)  F(x) == LET n == R[x].n IN {{n[1], n[2], n[3], n[4]}, {n[5], n[6], n[7], n[8]}, {n[1], n[2], n[6], n[5]}, {n[2], n[3], n[7], n[6]}, {n[3], n[4], n[8], n[7]}, {n[4], n[1], n[5], n[8]}}
                 all == UNION {F(x) : x \in 1..Len(R)}  cnt(f) == Cardinality({x \in 1..Len(R) : f \in F(x)}) IN
   /\ UNION {ToSet(R[x].n) : x \in 1..Len(R)} = 0..(N - 1) /\ \A x \in 1..Len(R) : Cardinality(ToSet(R[x].n)) = 8
   /\ \A f \in all : cnt(f) <= 2
   /\ Cardinality({f \in all : cnt(f) = 1}) = 2 * s.nc * (s.mc + s.md) + 2 * s.nc * (s.nf + 2)                 \* inner and outer wall, equator and rim: the ring is closed
Rec(s) == CASE s.kind = "lam" -> Lam(s) [] s.kind = "mind" -> Mind(s) [] s.kind = "plate" -> Plate(s) [] s.kind = "rot3" -> Rot3(s) [] s.kind = "ortho" -> Ortho(s) [] s.kind = "solid" -> Solid(s) [] OTHER -> Copv(s)
OK(s) == CASE s.kind = "lam" -> LamOK(s) [] s.kind = "mind" -> MindOK(s) [] s.kind = "plate" -> TRUE [] s.kind = "rot3" -> Rot3OK(s) [] s.kind = "ortho" -> OrthoOK(s) [] s.kind = "solid" -> SolidOK(s) [] OTHER -> CopvOK(s)
Init == i = 0
Next == i < Len(Scens) /\ i' = i + 1 /\ (Emit => PrintT("@@" \o ToJson(Rec(Scens[i + 1]))))
Spec == Init /\ [][Next]_i
AllOK == i > 0 => OK(Scens[i])
=============================================================================
