------------------------------- MODULE LinSys -------------------------------
(* C03, C04, C06, C07.  The constrained discrete system of a linear problem on *)
(* unit QUAD4 cells, its exact solution (Cramer), its adjoint and its exact    *)
(* sensitivities.  All integers: matrices are scaled by Sc (36 with mass, 12   *)
(* without).                                                                   *)
(*   R_i = Sum_cells [ k A grad u . grad N + (m B u + s) N ]                   *)
(*       + Sum_faces [ t (T + ga u) N ]                                        *)
EXTENDS VLib, Json
CONSTANTS ScenFile, Emit
Scens == JsonDeserialize(ScenFile)

NComp(s) == SumSeq(s.vecs)
VarOf(s, c) == LET RECURSIVE f(_, _) f(x, v) == IF x <= s.vecs[v] THEN v ELSE f(x - s.vecs[v], v + 1) IN f(c, 1)
OffOf(s, v) == SumOver(LAMBDA w : s.vecs[w], 1, v - 1)
NN(s) == Len(s.pts)
(* 1-based dof of node n (0-based id) and component c *)
Dof(s, n, c) == LET v == VarOf(s, c) IN NN(s) * OffOf(s, v) + n * s.vecs[v] + (c - OffOf(s, v))
NDof(s) == NN(s) * NComp(s)

HasMass(s) == s.mass = 1
Sc(s) == IF HasMass(s) THEN 36 ELSE 12
Dist(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2])
Stiff(d) == CASE d = 0 -> 4 [] d = 1 -> -1 [] d = 2 -> -2            \* /6
Mass(d)  == CASE d = 0 -> 4 [] d = 1 -> 2 [] d = 2 -> 1              \* /36
(* entry of the (scaled) element matrix of a cell for nodes a,b and components i,l *)
KC(s, k, m, a, b, i, l) == LET d == Dist(s.pts[a + 1], s.pts[b + 1]) IN
    k * s.A[i][l] * Stiff(d) * (Sc(s) \div 6) + (IF HasMass(s) THEN m * s.B[i][l] * Mass(d) ELSE 0)
KF(s, t, ga, same) == ga * t * (IF same THEN 2 ELSE 1) * (Sc(s) \div 6)

(* tabulated dof -> (node, component) *)
DofNode(s) == [d \in 1..NDof(s) |-> CHOOSE x \in (0..(NN(s) - 1)) \X (1..NComp(s)) : Dof(s, x[1], x[2]) = d]
CellsOf(s) == [n \in 0..(NN(s) - 1) |-> {c \in 1..Len(s.cells) : \E a \in 1..4 : s.cells[c][a] = n}]
FacesOf(s) == [n \in 0..(NN(s) - 1) |-> {f \in 1..Len(s.faces) : \E a \in 1..2 : s.faces[f].nodes[a] = n}]

Matrix(s) == LET dn == DofNode(s)  co == CellsOf(s)  fo == FacesOf(s) IN
  [r \in 1..NDof(s) |-> [q \in 1..NDof(s) |->
     LET a == dn[r][1]  i == dn[r][2]  b == dn[q][1]  l == dn[q][2] IN
       SumOverSet(LAMBDA c : KC(s, s.k[c], s.m[c], a, b, i, l), co[a] \cap co[b])
     + (IF i # l THEN 0 ELSE SumOverSet(LAMBDA f : KF(s, s.faces[f].t, s.ga, a = b), fo[a] \cap fo[b]))]]
(* residual at u = 0, scaled *)
Res0(s) == LET dn == DofNode(s)  co == CellsOf(s)  fo == FacesOf(s) IN
  [r \in 1..NDof(s) |-> LET a == dn[r][1]  i == dn[r][2] IN
       Cardinality(co[a]) * s.src[i] * (Sc(s) \div 4)
     + SumOverSet(LAMBDA f : s.faces[f].t * s.T[i] * (Sc(s) \div 2), fo[a])]

BC(s) == {s.bc[j][1] : j \in 1..Len(s.bc)}
ValOf(s) == [d \in BC(s) |-> LET j == CHOOSE x \in 1..Len(s.bc) : s.bc[x][1] = d IN s.bc[j][2]]
Free(s) == SortSet((1..NDof(s)) \ BC(s))

(* everything about one scenario, exact *)
Solve(s) ==
  LET K == Matrix(s)  r0 == Res0(s)  F == Free(s)  nf == Len(F)  g == ValOf(s)  B == BC(s)
      Kff == [i \in 1..nf |-> [j \in 1..nf |-> K[F[i]][F[j]]]]
      rhs == [i \in 1..nf |-> -r0[F[i]] - SumOverSet(LAMBDA d : K[F[i]][d] * g[d], B)]
      D == Det(Kff)
      uf == CramerNum(Kff, rhs)
      pos == [d \in 1..NDof(s) |-> IF d \in B THEN 0 ELSE CHOOSE i \in 1..nf : F[i] = d]
      u == [d \in 1..NDof(s) |-> IF d \in B THEN g[d] * D ELSE uf[pos[d]]]
      lf == CramerNum(Transpose(Kff), [i \in 1..nf |-> s.c[F[i]]])          \* adjoint, over D
      lam == [d \in 1..NDof(s) |-> IF d \in B THEN 0 ELSE lf[pos[d]]]
  IN [K |-> K, r0 |-> r0, D |-> D, u |-> u, lam |-> lam]

(* sensitivities of J = c.u : numerators over D*D (limbs), except dbc over D *)
DK(s, S, c) ==      \* w.r.t. the coefficient k of cell c
  LSum(LAMBDA x : LET a == s.cells[c][((x - 1) % 4) + 1]  i == ((x - 1) \div 4) + 1 IN
     LET dr == SumOver(LAMBDA y : LET b == s.cells[c][((y - 1) % 4) + 1]  l == ((y - 1) \div 4) + 1 IN
                  KC(s, 1, 0, a, b, i, l) * S.u[Dof(s, b, l)], 1, 4 * NComp(s))
     IN LMul(-S.lam[Dof(s, a, i)], dr), 1, 4 * NComp(s))
DM(s, S, c) ==
  LSum(LAMBDA x : LET a == s.cells[c][((x - 1) % 4) + 1]  i == ((x - 1) \div 4) + 1 IN
     LET dr == SumOver(LAMBDA y : LET b == s.cells[c][((y - 1) % 4) + 1]  l == ((y - 1) \div 4) + 1 IN
                  KC(s, 0, 1, a, b, i, l) * S.u[Dof(s, b, l)], 1, 4 * NComp(s))
     IN LMul(-S.lam[Dof(s, a, i)], dr), 1, 4 * NComp(s))
DT(s, S, f) ==      \* w.r.t. the load coefficient t of face f
  LSum(LAMBDA x : LET e == ((x - 1) % 2) + 1  a == s.faces[f].nodes[e]  o == s.faces[f].nodes[3 - e]  i == ((x - 1) \div 2) + 1 IN
     LET dr == s.T[i] * (Sc(s) \div 2) * S.D + s.ga * (Sc(s) \div 6) * (2 * S.u[Dof(s, a, i)] + S.u[Dof(s, o, i)])
     IN LMul(-S.lam[Dof(s, a, i)], dr), 1, 2 * NComp(s))
DG(s, S, d) == s.c[d] * S.D - SumOver(LAMBDA e : S.K[e][d] * S.lam[e], 1, NDof(s))   \* over D

Record(s) == LET S == Solve(s) IN
  [id |-> s.id, D |-> S.D, u |-> S.u, lam |-> S.lam, sc |-> Sc(s), K |-> S.K, r0 |-> S.r0,
   J |-> SumOver(LAMBDA d : s.c[d] * S.u[d], 1, NDof(s)),
   dk |-> [c \in 1..Len(s.cells) |-> DK(s, S, c)],
   dm |-> IF HasMass(s) THEN [c \in 1..Len(s.cells) |-> DM(s, S, c)] ELSE <<>>,
   dt |-> [f \in 1..Len(s.faces) |-> DT(s, S, f)],
   dg |-> [j \in 1..Len(s.bc) |-> DG(s, S, s.bc[j][1])]]

(* --- the solve as a transition system: lift, eliminate, solve, (adjoint) --- *)
VARIABLES si, pc, S
vars == <<si, pc, S>>
Init == si \in 1..Len(Scens) /\ pc = "given" /\ S = <<>>
DoSolve == pc = "given" /\ pc' = "solved" /\ S' = Solve(Scens[si]) /\ UNCHANGED si
DoEmit == pc = "solved" /\ pc' = "emitted" /\ (Emit => PrintT("@@" \o ToJson(Record(Scens[si])))) /\ UNCHANGED <<si, S>>
Next == DoSolve \/ DoEmit
Spec == Init /\ [][Next]_vars

sc0 == Scens[si]
WellPosed == pc = "solved" => S.D # 0
(* equilibrium at every free dof and the prescribed values, exactly *)
Equilibrium == pc = "solved" => \A d \in (1..NDof(sc0)) \ BC(sc0) :
      LEq(LSum(LAMBDA e : LMul(S.K[d][e], S.u[e]), 1, NDof(sc0)), LMul(-S.r0[d], S.D))
Prescribed == pc = "solved" => \A d \in BC(sc0) : S.u[d] = ValOf(sc0)[d] * S.D
(* Lagrange identity: the adjoint reproduces the functional *)
Lagrange == pc = "solved" =>
   LEq(LSum(LAMBDA d : LMul(sc0.c[d] * (IF d \in BC(sc0) THEN 0 ELSE 1), S.u[d]), 1, NDof(sc0)),
       LSum(LAMBDA d : LMul(S.lam[d], -S.r0[d] - SumOverSet(LAMBDA b : S.K[d][b] * ValOf(sc0)[b], BC(sc0))), 1, NDof(sc0)))
Symmetry == (pc = "solved" /\ sc0.sym = 1) => \A d, e \in 1..NDof(sc0) : S.K[d][e] = S.K[e][d]
=============================================================================
