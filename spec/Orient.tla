-------------------------------- MODULE Orient --------------------------------
(* C23: fibre populations.  A population is a list of frames R (integer, over den; *)
(* first column = fibre) with integer weights; its orientation tensors and its     *)
(* average stiffness are integers over known denominators.                         *)
EXTENDS VLib, Json
CONSTANTS ScenFile, Emit
VARIABLES i
Scens == JsonDeserialize(ScenFile)
Mat(F(_, _), d) == [a \in 1..d |-> [b \in 1..d |-> F(a, b)]]
T4(F(_, _, _, _), d) == [a \in 1..d |-> [b \in 1..d |-> [c \in 1..d |-> [e \in 1..d |-> F(a, b, c, e)]]]]
Wt(s) == SumSeq([k \in 1..Len(s.fib) |-> s.fib[k].w])
P(s, k, a) == s.fib[k].R[a][1]
A2(s) == Mat(LAMBDA a, b : SumOver(LAMBDA k : s.fib[k].w * P(s, k, a) * P(s, k, b), 1, Len(s.fib)), s.d)                    \* over W den^2
A4(s) == T4(LAMBDA a, b, c, e : SumOver(LAMBDA k : s.fib[k].w * P(s, k, a) * P(s, k, b) * P(s, k, c) * P(s, k, e), 1, Len(s.fib)), s.d)     \* over W den^4
(* lamina in its own axes, integer over dq: E, nu12 = n/10, nu23 = k/10 *)
Lam2(s) == LET dq == 100 * s.E1 - s.n * s.n * s.E2 IN [dq |-> dq, c |-> <<<<100 * s.E1 * s.E1, 10 * s.n * s.E1 * s.E2, 0>>, <<10 * s.n * s.E1 * s.E2, 100 * s.E1 * s.E2, 0>>, <<0, 0, s.G * dq>>>>]
Lam3(s) == LET D == (10 + s.k) * (100 * s.E1 - 10 * s.k * s.E1 - 2 * s.n * s.n * s.E2)
               c11 == 10 * s.E1 * s.E1 * (100 - s.k * s.k)  c12 == 10 * s.n * s.E1 * s.E2 * (10 + s.k)  c22 == 10 * s.E2 * (100 * s.E1 - s.n * s.n * s.E2)  c23 == 10 * s.E2 * (10 * s.k * s.E1 + s.n * s.n * s.E2)  h == (c22 - c23) \div 2 IN
   [dq |-> D, c |-> <<<<c11, c12, c12, 0, 0, 0>>, <<c12, c22, c23, 0, 0, 0>>, <<c12, c23, c22, 0, 0, 0>>, <<0, 0, 0, h, 0, 0>>, <<0, 0, 0, 0, s.G * D, 0>>, <<0, 0, 0, 0, 0, s.G * D>>>>, even |-> (c22 - c23) % 2 = 0]
V(d, a, b) == IF a = b THEN a ELSE IF d = 2 THEN 3 ELSE 9 - a - b
Ten(C, d) == TLCEval(T4(LAMBDA a, b, c, e : C[V(d, a, b)][V(d, c, e)], d))
Rot1(T, R, d) == TLCEval(T4(LAMBDA a, b, c, e : SumOver(LAMBDA p : R[a][p] * T[p][b][c][e], 1, d), d))
Cyc(T, d) == TLCEval(T4(LAMBDA a, b, c, e : T[e][a][b][c], d))
RECURSIVE RotN(_, _, _, _)
RotN(T, R, d, n) == IF n = 0 THEN T ELSE RotN(Cyc(Rot1(T, R, d), d), R, d, n - 1)
LamC(s) == IF s.d = 2 THEN Lam2(s) ELSE Lam3(s)
Avg(s) == LET L == TLCEval(LamC(s))  X == TLCEval([k \in 1..Len(s.fib) |-> RotN(Ten(L.c, s.d), s.fib[k].R, s.d, 4)]) IN TLCEval(T4(LAMBDA a, b, c, e : SumOver(LAMBDA k : s.fib[k].w * X[k][a][b][c][e], 1, Len(s.fib)), s.d))    \* over W den^4 dq
Cte(s) == Mat(LAMBDA a, b : SumOver(LAMBDA k : s.fib[k].w * SumOver(LAMBDA p : s.fib[k].R[a][p] * s.fib[k].R[b][p] * (IF p = 1 THEN s.af ELSE s.at), 1, s.d), 1, Len(s.fib)), s.d)
Odf(s) == [id |-> s.id, kind |-> "odf", W |-> Wt(s), a2 |-> A2(s), a4 |-> A4(s), dq |-> LamC(s).dq, C |-> Avg(s), cte |-> Cte(s)]
Tr(M) == SumOver(LAMBDA a : M[a][a], 1, Len(M))
OdfOK(s) == LET a2 == TLCEval(A2(s))  a4 == TLCEval(A4(s))  C == Avg(s)  L == TLCEval(LamC(s))  T == Ten(L.c, s.d)  dd == 1..s.d  den2 == s.den * s.den IN
   /\ (s.d = 3 => L.even) /\ L.dq > 0
   /\ \A k \in 1..Len(s.fib) : \A a, b \in dd : SumOver(LAMBDA p : s.fib[k].R[a][p] * s.fib[k].R[b][p], 1, s.d) = IF a = b THEN den2 ELSE 0        \* frames are orthonormal
   /\ Tr(a2) = Wt(s) * den2
   /\ \A a, b \in dd : SumOver(LAMBDA c : a4[a][b][c][c], 1, s.d) = den2 * a2[a][b]                                                        \* contraction identity
   /\ \A a, b, c, e \in dd : a4[a][b][c][e] = a4[b][a][c][e] /\ a4[a][b][c][e] = a4[a][c][b][e] /\ a4[a][b][c][e] = a4[a][b][e][c]
   /\ \A a, b, c, e \in dd : C[a][b][c][e] = C[b][a][c][e] /\ C[a][b][c][e] = C[c][e][a][b]
   /\ SumOver(LAMBDA a : SumOver(LAMBDA b : C[a][a][b][b] - Wt(s) * den2 * den2 * T[a][a][b][b], 1, s.d), 1, s.d) = 0
(* closures of a2 = A / q *)
Dl(a, b) == IF a = b THEN 1 ELSE 0
Lin(A, q, d) == T4(LAMBDA a, b, c, e : LET iso == Dl(a, b) * Dl(c, e) + Dl(a, c) * Dl(b, e) + Dl(a, e) * Dl(b, c)
      an == A[a][b] * Dl(c, e) + A[c][e] * Dl(a, b) + A[a][c] * Dl(b, e) + A[a][e] * Dl(b, c) + A[b][c] * Dl(a, e) + A[b][e] * Dl(a, c) IN IF d = 2 THEN 4 * an - q * iso ELSE 5 * an - q * iso, d)     \* over (24 | 35) q
Quad(A, d) == T4(LAMBDA a, b, c, e : A[a][b] * A[c][e], d)                                            \* over q^2
Hyb(s) == LET L == TLCEval(Lin(s.A, s.q, s.d))  Q == TLCEval(Quad(s.A, s.d))  D == Det(s.A) IN
   T4(LAMBDA a, b, c, e : IF s.d = 2 THEN 4 * D * L[a][b][c][e] * s.q + 24 * (s.q * s.q - 4 * D) * Q[a][b][c][e] ELSE 27 * D * L[a][b][c][e] * s.q + 35 * (s.q * s.q * s.q - 27 * D) * Q[a][b][c][e], s.d)        \* over 24 q^4 | 35 q^5
Clo(s) == [id |-> s.id, kind |-> "clo", lin |-> Lin(s.A, s.q, s.d), quad |-> Quad(s.A, s.d), hyb |-> Hyb(s)]
CloOK(s) == LET L == TLCEval(Lin(s.A, s.q, s.d))  Q == Quad(s.A, s.d)  H == Hyb(s)  dd == 1..s.d  cl == IF s.d = 2 THEN 24 ELSE 35 IN
   Tr(s.A) = s.q =>
   /\ \A a, b \in dd : SumOver(LAMBDA c : L[a][b][c][c], 1, s.d) = cl * s.A[a][b] /\ SumOver(LAMBDA c : Q[a][b][c][c], 1, s.d) = s.q * s.A[a][b]
   /\ (\A a, b \in dd : s.d * s.A[a][b] = s.q * Dl(a, b)) => \A a, b, c, e \in dd : H[a][b][c][e] = (IF s.d = 2 THEN s.q * s.q * s.q ELSE s.q * s.q * s.q * s.q) * L[a][b][c][e]     \* exact when isotropic
   /\ (Det(s.A) = 0) => \A a, b, c, e \in dd : H[a][b][c][e] = cl * (IF s.d = 2 THEN s.q * s.q ELSE s.q * s.q * s.q) * Q[a][b][c][e]                                \* quadratic when degenerate
(* closure-free fourth moment: a2 = A / q, rho = y / 5; components 1111, 2222, 1122, 1112, 1222 over 40 q t *)
Cf(s) == LET t == s.A[1][1] + s.A[2][2]  c == s.A[1][1] - s.A[2][2]  h == 2 * s.A[1][2]  r == t * t - c * c - h * h
             c4 == 5 * (c * c - h * h) + s.y[1] * r  s4 == 10 * c * h + s.y[2] * r IN
   <<15 * t * t + 20 * c * t + c4, 15 * t * t - 20 * c * t + c4, 5 * t * t - c4, 10 * h * t + s4, 10 * h * t - s4>>
Cfr(s) == [id |-> s.id, kind |-> "cf", f |-> Cf(s), t |-> s.A[1][1] + s.A[2][2]]
CfOK(s) == LET f == Cf(s)  t == s.A[1][1] + s.A[2][2] IN
   /\ f[1] + f[3] = 40 * t * s.A[1][1] /\ f[2] + f[3] = 40 * t * s.A[2][2] /\ f[4] + f[5] = 40 * t * s.A[1][2]                \* contraction identity at any trace
   /\ (s.A[1][1] * s.A[2][2] = s.A[1][2] * s.A[1][2] => /\ f[1] * t = 40 * t * s.A[1][1] * s.A[1][1] /\ f[3] * t = 40 * t * s.A[1][1] * s.A[2][2] /\ f[4] * t = 40 * t * s.A[1][1] * s.A[1][2] /\ f[5] * t = 40 * t * s.A[2][2] * s.A[1][2])
   /\ (s.y[1] * s.y[1] + s.y[2] * s.y[2] <= 25 => f[1] >= 0 /\ f[2] >= 0 /\ f[3] >= 0)
(* design boxes, coordinates in quarters: triangle over 4^4, tetrahedron over 6 * 8 * 64 *)
Tri(z, e) == LET u == <<0, 2, 4, 3, 2, 1, 0, 0>>  v == <<0, 0, 0, 1, 2, 3, 4, 2>>  m(x) == 4 - x  p(x) == 4 + x  q(x) == 16 - x * x
     N == <<-m(z) * m(e) * (4 + z + e), 2 * q(z) * m(e), -p(z) * m(e) * (4 - z + e), 2 * p(z) * q(e), -p(z) * p(e) * (4 - z - e), 2 * q(z) * p(e), -m(z) * p(e) * (4 + z - e), 2 * m(z) * q(e)>> IN <<Dot(u, N), Dot(v, N), SumSeq(N)>>      \* over 1024, partition 256
Tet(x) == LET vx == <<<<0, 0, 0>>, <<6, 0, 0>>, <<3, 3, 0>>, <<0, 6, 0>>, <<0, 0, 6>>, <<3, 0, 3>>, <<2, 2, 2>>, <<0, 3, 3>>>>
              sg == <<<<-1, -1, -1>>, <<1, -1, -1>>, <<1, 1, -1>>, <<-1, 1, -1>>, <<-1, -1, 1>>, <<1, -1, 1>>, <<1, 1, 1>>, <<-1, 1, 1>>>>
              N == [k \in 1..8 |-> (4 + sg[k][1] * x[1]) * (4 + sg[k][2] * x[2]) * (4 + sg[k][3] * x[3])] IN [a \in 1..3 |-> SumOver(LAMBDA k : vx[k][a] * N[k], 1, 8)]             \* over 6 * 512
Box(s) == [id |-> s.id, kind |-> "box", r |-> [k \in 1..Len(s.x) |-> IF Len(s.x[k]) = 2 THEN LET t == Tri(s.x[k][1], s.x[k][2]) IN <<t[1], t[2]>> ELSE Tet(s.x[k])]]
BoxOK(s) == \A k \in 1..Len(s.x) : IF Len(s.x[k]) = 2 THEN LET t == Tri(s.x[k][1], s.x[k][2]) IN t[1] >= 0 /\ t[2] >= 0 /\ t[1] + t[2] <= 1024 /\ t[3] = 256
                                   ELSE LET t == Tet(s.x[k]) IN (\A a \in 1..3 : t[a] >= 0) /\ t[1] + t[2] + t[3] <= 3072
(* distinct design points of the grid have distinct images inside the box *)
Injective == LET G == (-4..4) \X (-4..4) IN Cardinality({LET t == Tri(g[1], g[2]) IN <<t[1], t[2]>> : g \in G}) = Cardinality(G)
Injective3 == LET G == (-3..4) \X (-3..4) \X (-3..4) IN Cardinality({Tet(g) : g \in G}) = Cardinality(G)
Rec(s) == CASE s.kind = "odf" -> Odf(s) [] s.kind = "clo" -> Clo(s) [] s.kind = "cf" -> Cfr(s) [] OTHER -> Box(s)
OK(s) == CASE s.kind = "odf" -> OdfOK(s) [] s.kind = "clo" -> CloOK(s) [] s.kind = "cf" -> CfOK(s) [] OTHER -> BoxOK(s)
Init == i = 0
Next == i < Len(Scens) /\ i' = i + 1 /\ (Emit => PrintT("@@" \o ToJson(Rec(Scens[i + 1]))))
Spec == Init /\ [][Next]_i
AllOK == i > 0 => OK(Scens[i])
MapOK == i = 0 => Injective /\ Injective3
=============================================================================
