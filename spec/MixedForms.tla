---------------------------- MODULE MixedForms ----------------------------
(* C01.  Several variables of different order on one simplicial mesh (Taylor-  *)
(* Hood and the like), the general weak form                                   *)
(*   mass_i   = m B[i].u + C[i].grad u + src_i + cv u_1 d_1 u_i                *)
(*   flux_id  = k A[i].d_d u + E[i][d].u                                       *)
(*   traction_i = t (T_i + ga u_i)  on each selected side                      *)
(* and its exact residual and tangent: basis functions are polynomials in the  *)
(* barycentric coordinates, integrated with  Int lambda^e = det Prod e! /      *)
(* (dim + |e|)!.  The mesh is a lattice mesh under a linear map M.             *)
EXTENDS Elements, Json
CONSTANTS ScenFile, Emit
Scens == JsonDeserialize(ScenFile)

Fact == [n \in 0..12 |-> LET RECURSIVE f(_) f(k) == IF k <= 1 THEN 1 ELSE k * f(k - 1) IN f(n)]
ExpSum(e) == SumSeq(e)
ProdFact(e) == LET RECURSIVE f(_) f(k) == IF k = 0 THEN 1 ELSE Fact[e[k]] * f(k - 1) IN f(Len(e))
UnitE(d, S) == [k \in 1..(d + 1) |-> IF k \in S THEN 1 ELSE 0]
EAdd(e, f) == [k \in DOMAIN e |-> e[k] + f[k]]
El(d, ord) == IF d = 2 THEN (IF ord = 1 THEN "TRI3" ELSE "TRI6") ELSE (IF ord = 1 THEN "TET4" ELSE "TET10")
Bary(d, r) == [k \in 1..(d + 1) |-> IF k = 1 THEN 2 - SumSeq(r) ELSE r[k - 1]]            \* doubled
(* polynomials: sequences of <<coefficient, exponents>> *)
Phi(d, ord, a) == LET b == Bary(d, RefNodes(El(d, ord))[a])
                      S == {k \in 1..(d + 1) : b[k] > 0} IN
   IF ord = 1 THEN <<<<1, UnitE(d, S)>>>>
   ELSE IF Cardinality(S) = 1 THEN <<<<2, EAdd(UnitE(d, S), UnitE(d, S))>>, <<-1, UnitE(d, S)>>>>
   ELSE <<<<4, UnitE(d, S)>>>>
PMul(p, q) == FlattenSeq([i \in 1..Len(p) |-> [j \in 1..Len(q) |-> <<p[i][1] * q[j][1], EAdd(p[i][2], q[j][2])>>]])
DPhi(p, i) == [n \in 1..Len(p) |-> <<p[n][1] * p[n][2][i], [k \in DOMAIN p[n][2] |-> IF k = i /\ p[n][2][k] > 0 THEN p[n][2][k] - 1 ELSE p[n][2][k]]>>]
QMax(s) == IF s.cv = 0 THEN 4 ELSE 5
(* integral over a simplex of dimension d, times (d+q)!, per unit determinant *)
Integ(p, d, q) == SumOver(LAMBDA n : IF p[n][1] = 0 THEN 0 ELSE p[n][1] * ProdFact(p[n][2]) * (Fact[d + q] \div Fact[d + ExpSum(p[n][2])]), 1, Len(p))

----------------------------------------------------------------------------
NComp(s) == SumOver(LAMBDA v : s.vars[v].vec, 1, Len(s.vars))
VarOf(s) == LET RECURSIVE f(_, _) f(c, v) == IF c <= s.vars[v].vec THEN v ELSE f(c - s.vars[v].vec, v + 1) IN [c \in 1..NComp(s) |-> f(c, 1)]
CompOf(s) == [c \in 1..NComp(s) |-> c - SumOver(LAMBDA v : s.vars[v].vec, 1, VarOf(s)[c] - 1)]
Off(s) == [v \in 1..Len(s.vars) |-> SumOver(LAMBDA w : s.vars[w].vec * s.vars[w].nn, 1, v - 1)]
NDof(s) == SumOver(LAMBDA v : s.vars[v].vec * s.vars[v].nn, 1, Len(s.vars))
(* local dofs of a cell: <<component, local node>>, and their global number *)
Locals(s) == UNION {{<<c, a>> : a \in 1..NNodes(El(s.dim, s.vars[VarOf(s)[c]].ord))} : c \in 1..NComp(s)}
DofOf(s, vo, co, of, c, x) == LET v == vo[x[1]] IN of[v] + s.vars[v].cells[c][x[2]] * s.vars[v].vec + co[x[1]] - 1

Tables(s) ==
  LET d == s.dim  q == QMax(s)  O == {s.vars[v].ord : v \in 1..Len(s.vars)}
      P == TLCEval([o \in O |-> [a \in 1..NNodes(El(d, o)) |-> Phi(d, o, a)]])
      D == TLCEval([o \in O |-> [a \in 1..NNodes(El(d, o)) |-> [i \in 1..(d + 1) |-> DPhi(P[o][a], i)]]])
      N(o) == NNodes(El(d, o))
  IN [one |-> [o \in O |-> [a \in 1..N(o) |-> Integ(P[o][a], d, q)]],
      mm |-> [o \in O |-> [a \in 1..N(o) |-> [r \in O |-> [b \in 1..N(r) |-> Integ(PMul(P[o][a], P[r][b]), d, q)]]]],
      gm |-> [o \in O |-> [a \in 1..N(o) |-> [i \in 1..(d + 1) |-> [r \in O |-> [b \in 1..N(r) |-> Integ(PMul(D[o][a][i], P[r][b]), d, q)]]]]],
      gg |-> [o \in O |-> [a \in 1..N(o) |-> [i \in 1..(d + 1) |-> [r \in O |-> [b \in 1..N(r) |-> [j \in 1..(d + 1) |-> Integ(PMul(D[o][a][i], D[r][b][j]), d, q)]]]]]],
      \* u_1 (order p) d_j u (order r, node c) tested with the same component (order r, node a)
      tri |-> IF s.cv = 0 THEN <<>> ELSE LET p == s.vars[1].ord IN
              [r \in O |-> [a \in 1..N(r) |-> [b \in 1..N(p) |-> [c \in 1..N(r) |-> [j \in 1..(d + 1) |-> Integ(PMul(P[p][b], PMul(D[r][c][j], P[r][a])), d, q)]]]]],
      \* on the face opposite vertex f
      fone |-> [o \in O |-> [f \in 1..(d + 1) |-> [a \in 1..N(o) |-> Integ(SelectSeq(P[o][a], LAMBDA t : t[2][f] = 0), d - 1, 4)]]],
      fmm |-> [o \in O |-> [f \in 1..(d + 1) |-> [a \in 1..N(o) |-> [b \in 1..N(o) |-> Integ(SelectSeq(PMul(P[o][a], P[o][b]), LAMBDA t : t[2][f] = 0), d - 1, 4)]]]]]

CellRec(s, T, L, c) ==
  LET d == s.dim  vo == TLCEval(VarOf(s))  nc == NComp(s)
      ord(i) == s.vars[vo[i]].ord
      X == TLCEval([i \in 1..(d + 1) |-> MatVec(s.M, s.cor[c][i])])
      Ed == TLCEval([i \in 1..d |-> VSub(X[i + 1], X[1])])
      det == Det(Ed)
      Gp == TLCEval([i \in 1..d |-> [k \in 1..d |-> (IF (i + k) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(Ed, i, k))]])
      G == TLCEval([i \in 1..(d + 1) |-> IF i = 1 THEN [k \in 1..d |-> -SumOver(LAMBDA j : Gp[j][k], 1, d)] ELSE Gp[i - 1]])
      gdot == TLCEval([i \in 1..(d + 1) |-> [j \in 1..(d + 1) |-> Dot(G[i], G[j])]])
      co == TLCEval(CompOf(s))  of == TLCEval(Off(s))
      dofs == TLCEval([x \in L |-> DofOf(s, vo, co, of, c, x)])
      Ut == TLCEval([x \in L |-> s.u[dofs[x] + 1]])
      U(x) == Ut[x]
      Nn(i) == NNodes(El(d, ord(i)))
      gg == TLCEval([o \in DOMAIN T.gg |-> [a \in DOMAIN T.gg[o] |-> [r \in DOMAIN T.gg |-> [b \in DOMAIN T.gg[r] |->
               SumOver(LAMBDA i : SumOver(LAMBDA j : gdot[i][j] * T.gg[o][a][i][r][b][j], 1, d + 1), 1, d + 1)]]]])
      gm == TLCEval([o \in DOMAIN T.gg |-> [a \in DOMAIN T.gg[o] |-> [r \in DOMAIN T.gg |-> [b \in DOMAIN T.gg[r] |-> [k \in 1..d |->
               SumOver(LAMBDA i : G[i][k] * T.gm[o][a][i][r][b], 1, d + 1)]]]]])
      \* the linear part; everything times det * (d+q)!
      K == TLCEval([x \in L |-> [y \in L |->
              LET i == x[1]  a == x[2]  l == y[1]  b == y[2] IN
              s.kv[c] * s.A[i][l] * gg[ord(i)][a][ord(l)][b]
              + s.mv[c] * s.B[i][l] * det * det * T.mm[ord(i)][a][ord(l)][b]
              + det * SumOver(LAMBDA k : s.C[i][l][k] * gm[ord(l)][b][ord(i)][a][k] + s.E[i][l][k] * gm[ord(i)][a][ord(l)][b][k], 1, d)]])
      tri == TLCEval(IF s.cv = 0 THEN <<>> ELSE [r \in DOMAIN T.tri |-> [a \in DOMAIN T.tri[r] |-> [b \in DOMAIN T.tri[r][a] |-> [e \in DOMAIN T.tri[r][a][b] |->
               SumOver(LAMBDA j : G[j][1] * T.tri[r][a][b][e][j], 1, d + 1)]]]])
      cvd1(x, b) == s.cv * det * SumOver(LAMBDA e : U(<<x[1], e>>) * tri[ord(x[1])][x[2]][b][e], 1, Nn(x[1]))
      cvdi(x, e) == s.cv * det * SumOver(LAMBDA b : U(<<1, b>>) * tri[ord(x[1])][x[2]][b][e], 1, Nn(1))
      J == TLCEval([x \in L |-> [y \in L |-> K[x][y] + (IF s.cv # 0 /\ y[1] = 1 THEN cvd1(x, y[2]) ELSE 0) + (IF s.cv # 0 /\ y[1] = x[1] THEN cvdi(x, y[2]) ELSE 0)]])
      R == TLCEval([x \in L |-> SumOverSet(LAMBDA y : K[x][y] * U(y), L) + s.src[x[1]] * det * det * T.one[ord(x[1])][x[2]]
              + (IF s.cv = 0 THEN 0 ELSE SumOver(LAMBDA b : U(<<1, b>>) * cvd1(x, b), 1, Nn(1)))])
      \* the selected sides of this cell
      Opp(S) == {f \in 1..(d + 1) : \A i \in (1..(d + 1)) \ {f} : s.cor[c][i][S.ax] = S.v}
      Len1(f) == CHOOSE r \in 0..60 : r * r = Dot(G[f], G[f])
      FR(x) == SumOver(LAMBDA n : LET S == s.surfs[n] IN SumOverSet(LAMBDA f : Len1(f) * s.ts[n][c] *
                  (S.T[x[1]] * T.fone[ord(x[1])][f][x[2]] + S.ga * SumOver(LAMBDA b : U(<<x[1], b>>) * T.fmm[ord(x[1])][f][x[2]][b], 1, Nn(x[1]))), Opp(S)), 1, Len(s.surfs))
      FJ(x, y) == IF x[1] # y[1] THEN 0 ELSE SumOver(LAMBDA n : LET S == s.surfs[n] IN SumOverSet(LAMBDA f : Len1(f) * s.ts[n][c] * S.ga * T.fmm[ord(x[1])][f][x[2]][y[2]], Opp(S)), 1, Len(s.surfs))
  IN [det |-> det, dof |-> dofs, J |-> J, R |-> R,
      FR |-> [x \in L |-> FR(x)], FJ |-> [x \in L |-> [y \in L |-> FJ(x, y)]],
      nf |-> [n \in 1..Len(s.surfs) |-> Cardinality(Opp(s.surfs[n]))]]

Expected(s) ==
  LET T == TLCEval(Tables(s))  L == TLCEval(Locals(s))  NC == Len(s.cor)
      R == TLCEval([c \in 1..NC |-> CellRec(s, T, L, c)])
      at == TLCEval([c \in 1..NC |-> [g \in {R[c].dof[x] : x \in L} |-> CHOOSE x \in L : R[c].dof[x] = g]])
      has == TLCEval([g \in 0..(NDof(s) - 1) |-> {c \in 1..NC : g \in DOMAIN at[c]}])
      row(g) == LET nb == SortSet(UNION {DOMAIN at[c] : c \in has[g]}) IN
                [n \in 1..Len(nb) |-> LET h == nb[n]  cs == has[g] \cap has[h] IN
                   <<h, SumOverSet(LAMBDA c : R[c].J[at[c][g]][at[c][h]], cs), SumOverSet(LAMBDA c : R[c].FJ[at[c][g]][at[c][h]], cs)>>]
  IN [id |-> s.id, det |-> R[1].det, same |-> \A c \in 1..NC : R[c].det = R[1].det /\ R[1].det > 0,
      vden |-> Fact[s.dim + QMax(s)], fden |-> Fact[s.dim + 3], nf |-> [n \in 1..Len(s.surfs) |-> SumOver(LAMBDA c : R[c].nf[n], 1, NC)],
      nz |-> [g \in 1..NDof(s) |-> Cardinality(UNION {DOMAIN at[c] : c \in has[g - 1]})],
      res |-> [g \in 1..NDof(s) |-> <<SumOverSet(LAMBDA c : R[c].R[at[c][g - 1]], has[g - 1]), SumOverSet(LAMBDA c : R[c].FR[at[c][g - 1]], has[g - 1])>>],
      jac |-> [g \in 1..NDof(s) |-> row(g - 1)]]

(* the basis: a partition of unity, Kronecker at the nodes; hence the moments sum to the volume *)
BasisOK == \A d \in {2, 3}, o \in {1, 2} : LET N == NNodes(El(d, o)) IN
   /\ SumOver(LAMBDA a : Integ(Phi(d, o, a), d, 4), 1, N) = Fact[d + 4] \div Fact[d]
   /\ \A a \in 1..N : \A b \in 1..N :
        LET y == Bary(d, RefNodes(El(d, o))[b])  v(t) == t[1] * (LET RECURSIVE f(_) f(k) == IF k = 0 THEN 1 ELSE Pow(y[k], t[2][k]) * f(k - 1) IN f(d + 1)) * Pow(2, 2 - ExpSum(t[2]))
        IN SumOver(LAMBDA n : v(Phi(d, o, a)[n]), 1, Len(Phi(d, o, a))) = (IF a = b THEN 4 ELSE 0)

VARIABLE i
Init == i = 1 /\ Assert(BasisOK, "basis")
Next == i <= Len(Scens) /\ i' = i + 1
Spec == Init /\ [][Next]_i
(* a constant field has no gradient: the E-free, C-free stiffness annihilates it -- and every cell has the same positive volume *)
EmitAll == (i <= Len(Scens) /\ Emit) => LET e == Expected(Scens[i]) IN e.same /\ PrintT("@@" \o ToJson(e))
=============================================================================
