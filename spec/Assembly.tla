------------------------------ MODULE Assembly ------------------------------
(* C01.  What assembling a weak form means, and the batched state machine that *)
(* is supposed to compute it.                                                  *)
(*                                                                             *)
(* A problem has cells that are axis-aligned boxes (QUAD4 / HEX8) with integer *)
(* corners, components numbered over all variables, a weak form               *)
(*   R_i(N) = Sum_q w [ k(1+al*u1) Sum_l A[i][l] grad u_l . grad N             *)
(*                    + (m(1+be*u1) Sum_l B[i][l] u_l + s_i (1 + x.e)) N ]     *)
(*          + Sum_faces Sum_q w t (T_i (1+x.e) + ga*u_i) N, e = s.xe,                            *)
(* and internal variables k, m given per node, cell, quadrature point or       *)
(* uniformly.  All numbers are exact elements of Q(sqrt 3): the 2-point Gauss  *)
(* rule has shape values (3 +- sqrt 3)/6.                                      *)
EXTENDS VLib, Json

CONSTANTS ScenFile,      \* JSON file with the scenarios
          MaxBatch,      \* largest batch the nondeterministic assembler may take (0: no state machine)
          Emit           \* print the expected matrices

Scens == JsonDeserialize(ScenFile)

Full(i, j) == TRUE
InView(v, i, j) == CASE v = "FULL" -> TRUE [] v = "UPPER" -> i <= j [] v = "LOWER" -> i >= j

----------------------------------------------------------------------------
(* dof numbering: variable by variable, node by node, component by component *)
NComp(s) == SumSeq(s.vecs)
VarOf(s) == LET RECURSIVE f(_, _) f(c, v) == IF c <= s.vecs[v] THEN v ELSE f(c - s.vecs[v], v + 1) IN [c \in 1..NComp(s) |-> f(c, 1)]
LocOf(s) == [c \in 1..NComp(s) |-> c - SumOver(LAMBDA v : s.vecs[v], 1, VarOf(s)[c] - 1)]
NNode(s) == Len(s.pts)
DofTab(s) == [n \in 1..NNode(s) |-> [c \in 1..NComp(s) |->
               NNode(s) * SumOver(LAMBDA v : s.vecs[v], 1, VarOf(s)[c] - 1) + (n - 1) * s.vecs[VarOf(s)[c]] + LocOf(s)[c] - 1]]

(* geometry of one cell: local nodes are recognised by their corner, whatever their order *)
Lo(s, c) == [d \in 1..s.dim |-> CHOOSE x \in {s.pts[s.cells[c][a] + 1][d] : a \in 1..Len(s.cells[c])} :
                                  \A b \in 1..Len(s.cells[c]) : x <= s.pts[s.cells[c][b] + 1][d]]
Corner(s, c) == LET lo == Lo(s, c) IN [a \in 1..Len(s.cells[c]) |-> [d \in 1..s.dim |-> s.pts[s.cells[c][a] + 1][d] - lo[d]]]

(* 1D factors (times 6): near corner 3+sqrt3, far corner 3-sqrt3 *)
F1(same) == IF same THEN <<3, 1>> ELSE <<3, -1>>
Sh(dim, q, a) == ZProdTo(LAMBDA d : F1(q[d] = a[d]), 1, dim)                       \* / 6^dim
Gr(dim, q, a, e) == ZScale(IF a[e] = 1 THEN 1 ELSE -1,
                     ZProdTo(LAMBDA d : IF d = e THEN <<1, 0>> ELSE F1(q[d] = a[d]), 1, dim)) \* / (6^(dim-1) h_e)

HH(s) == LET RECURSIVE l(_) l(d) == IF d = 0 THEN 1 ELSE LET m == l(d - 1) IN (m * s.h[d]) \div GCD(m, s.h[d]) IN l(s.dim)
Vol(s) == LET RECURSIVE f(_) f(d) == IF d = 0 THEN 1 ELSE s.h[d] * f(d - 1) IN f(s.dim)

(* internal variable at the quadrature point of cell c nearest local node q, times 6^dim if nodal *)
VarAt(s, kind, val, c, cor, q) ==
  CASE kind = "node" -> ZSumTo(LAMBDA a : ZScale(val[s.cells[c][a] + 1], Sh(s.dim, cor[q], cor[a])), 1, Len(cor))
    [] kind = "cell" -> Z3(val[c])
    [] kind = "quad" -> Z3(val[c][q])
    [] kind = "unif" -> Z3(val)
VarDen(s, kind) == IF kind = "node" THEN Pow(6, s.dim) ELSE 1
NLDen(s, al) == IF al = 0 THEN 1 ELSE Pow(6, s.dim)

DenFlux(s) == Pow(2, s.dim) * VarDen(s, s.kkind) * NLDen(s, s.al) * Pow(6, 2 * (s.dim - 1)) * HH(s) * HH(s)
DenMass(s) == Pow(2, s.dim) * VarDen(s, s.mkind) * NLDen(s, s.be) * Pow(6, 2 * s.dim)
DenSrc(s)  == Pow(2, s.dim) * Pow(6, 2 * s.dim)
DenSurf(s) == Pow(2, s.dim - 1) * Pow(6, 2 * (s.dim - 1))

(* Everything about one cell: element residuals and tangents, by local node and component *)
CellRec(s, dof, c) ==
  LET cor == Corner(s, c)  nl == Len(cor)  nc == NComp(s)  P == Pow(6, s.dim)
      V == Vol(s)
      U(a, l) == s.u[dof[s.cells[c][a] + 1][l] + 1]
      uq == [q \in 1..nl |-> [l \in 1..nc |-> ZSumTo(LAMBDA a : ZScale(U(a, l), Sh(s.dim, cor[q], cor[a])), 1, nl)]]
      gu == [q \in 1..nl |-> [l \in 1..nc |-> [d \in 1..s.dim |-> ZSumTo(LAMBDA a : ZScale(U(a, l), Gr(s.dim, cor[q], cor[a], d)), 1, nl)]]]
      sh == [q \in 1..nl |-> [a \in 1..nl |-> Sh(s.dim, cor[q], cor[a])]]
      gr == [q \in 1..nl |-> [a \in 1..nl |-> [d \in 1..s.dim |-> Gr(s.dim, cor[q], cor[a], d)]]]
      k == [q \in 1..nl |-> ZScale(V, VarAt(s, s.kkind, s.kval, c, cor, q))]
      m == [q \in 1..nl |-> ZScale(V, VarAt(s, s.mkind, s.mval, c, cor, q))]
      ka == [q \in 1..nl |-> IF s.al = 0 THEN k[q] ELSE ZMul(k[q], ZAdd(Z3(P), ZScale(s.al, uq[q][1])))]
      mb == [q \in 1..nl |-> IF s.be = 0 THEN m[q] ELSE ZMul(m[q], ZAdd(Z3(P), ZScale(s.be, uq[q][1])))]
      hd == [d \in 1..s.dim |-> (HH(s) \div s.h[d]) * (HH(s) \div s.h[d])]
      GG(q, x, y) == ZSumTo(LAMBDA d : ZScale(hd[d], ZMul(x[d], y[d])), 1, s.dim)
      flux == [a \in 1..nl |-> [i \in 1..nc |-> ZSumTo(LAMBDA q : ZSumTo(LAMBDA l :
                 IF s.A[i][l] = 0 THEN <<0, 0>> ELSE ZScale(s.A[i][l], ZMul(ka[q], GG(q, gu[q][l], gr[q][a]))), 1, nc), 1, nl)]]
      mass == [a \in 1..nl |-> [i \in 1..nc |-> ZSumTo(LAMBDA q : ZSumTo(LAMBDA l :
                 IF s.B[i][l] = 0 THEN <<0, 0>> ELSE ZScale(s.B[i][l], ZMul(mb[q], ZMul(uq[q][l], sh[q][a]))), 1, nc), 1, nl)]]
      \* 1 + x.e at the quadrature point, times 6^dim (positions are interpolated like any nodal field)
      XE(a) == 1 + SumOver(LAMBDA d : s.xe[d] * s.h[d] * s.pts[s.cells[c][a] + 1][d], 1, s.dim)
      xq == [q \in 1..nl |-> ZSumTo(LAMBDA a : ZScale(XE(a), sh[q][a]), 1, nl)]
      src  == [a \in 1..nl |-> [i \in 1..nc |-> ZSumTo(LAMBDA q : ZScale(V * s.src[i], ZMul(xq[q], sh[q][a])), 1, nl)]]
      \* d/dU(b,l) : the u1-dependence of k(1+al u1) adds a column for component 1
      jf == [a \in 1..nl |-> [i \in 1..nc |-> [b \in 1..nl |-> [l \in 1..nc |-> ZSumTo(LAMBDA q :
               ZAdd(IF s.A[i][l] = 0 THEN <<0, 0>> ELSE ZScale(s.A[i][l], ZMul(ka[q], GG(q, gr[q][b], gr[q][a]))),
                    IF l # 1 \/ s.al = 0 THEN <<0, 0>> ELSE
                      ZScale(s.al, ZMul(ZMul(k[q], sh[q][b]),
                         ZSumTo(LAMBDA r : ZScale(s.A[i][r], GG(q, gu[q][r], gr[q][a])), 1, nc)))), 1, nl)]]]]
      jm == [a \in 1..nl |-> [i \in 1..nc |-> [b \in 1..nl |-> [l \in 1..nc |-> ZSumTo(LAMBDA q :
               ZAdd(IF s.B[i][l] = 0 THEN <<0, 0>> ELSE ZScale(s.B[i][l], ZMul(mb[q], ZMul(sh[q][b], sh[q][a]))),
                    IF l # 1 \/ s.be = 0 THEN <<0, 0>> ELSE
                      ZScale(s.be, ZMul(ZMul(m[q], sh[q][b]), ZMul(sh[q][a],
                         ZSumTo(LAMBDA r : ZScale(s.B[i][r], uq[q][r]), 1, nc))))), 1, nl)]]]]
  IN [nl |-> nl, flux |-> flux, mass |-> mass, src |-> src, jf |-> jf, jm |-> jm]

(* One boundary face: nodes (0-based ids), t per node = value at the face point nearest to it *)
FaceRec(s, dof, f) ==
  LET F == s.faces[f]  nf == Len(F.nodes)  nc == NComp(s)
      S == s.surfs[F.s]
      P(a) == s.pts[F.nodes[a] + 1]
      Tang == {d \in 1..s.dim : \E a \in 1..nf : P(a)[d] # P(1)[d]}
      area == LET RECURSIVE g(_) g(D) == IF D = {} THEN 1 ELSE LET d == CHOOSE x \in D : TRUE IN s.h[d] * g(D \ {d}) IN g(Tang)
      Prod(q, a) == LET RECURSIVE g(_) g(D) == IF D = {} THEN <<1, 0>> ELSE LET d == CHOOSE x \in D : TRUE
                        IN ZMul(F1(P(q)[d] = P(a)[d]), g(D \ {d})) IN g(Tang)
      sh == [q \in 1..nf |-> [a \in 1..nf |-> Prod(q, a)]]
      U(a, l) == s.u[dof[F.nodes[a] + 1][l] + 1]
      uq == [q \in 1..nf |-> [l \in 1..nc |-> ZSumTo(LAMBDA a : ZScale(U(a, l), sh[q][a]), 1, nf)]]
      XE(a) == 1 + SumOver(LAMBDA d : s.xe[d] * s.h[d] * P(a)[d], 1, s.dim)
      xq == [q \in 1..nf |-> ZSumTo(LAMBDA a : ZScale(XE(a), sh[q][a]), 1, nf)]
  IN [nf |-> nf,
      r |-> [a \in 1..nf |-> [i \in 1..nc |-> ZSumTo(LAMBDA q :
               ZScale(area * F.t[q], ZMul(ZAdd(ZScale(S.T[i], xq[q]), ZScale(S.ga, uq[q][i])), sh[q][a])), 1, nf)]],
      j |-> [a \in 1..nf |-> [b \in 1..nf |-> ZSumTo(LAMBDA q : ZScale(S.ga * area * F.t[q], ZMul(sh[q][b], sh[q][a])), 1, nf)]]]

----------------------------------------------------------------------------
(* The definition: every entry is the sum over all cells and selected faces *)
Cells(s) == 1..Len(s.cells)
Faces(s) == 1..Len(s.faces)
Table(s) == LET dof == DofTab(s) IN [cell |-> [c \in Cells(s) |-> CellRec(s, dof, c)], face |-> [f \in Faces(s) |-> FaceRec(s, dof, f)],
             nodeCells |-> [n \in 1..NNode(s) |-> {c \in Cells(s) : \E a \in 1..Len(s.cells[c]) : s.cells[c][a] = n - 1}],
             nodeFaces |-> [n \in 1..NNode(s) |-> {f \in Faces(s) : \E a \in 1..Len(s.faces[f].nodes) : s.faces[f].nodes[a] = n - 1}]]
LocalOf(nodes, n) == CHOOSE a \in 1..Len(nodes) : nodes[a] = n - 1

ResAt(s, T, n, i) ==
  [flux |-> ZSumSet(LAMBDA c : T.cell[c].flux[LocalOf(s.cells[c], n)][i], T.nodeCells[n]),
   mass |-> ZSumSet(LAMBDA c : T.cell[c].mass[LocalOf(s.cells[c], n)][i], T.nodeCells[n]),
   src  |-> ZSumSet(LAMBDA c : T.cell[c].src[LocalOf(s.cells[c], n)][i], T.nodeCells[n]),
   surf |-> ZSumSet(LAMBDA f : T.face[f].r[LocalOf(s.faces[f].nodes, n)][i], T.nodeFaces[n])]
JacAt(s, T, n, i, p, l) ==
  LET cs == T.nodeCells[n] \cap T.nodeCells[p]
      fs == IF i = l THEN T.nodeFaces[n] \cap T.nodeFaces[p] ELSE {}
  IN [flux |-> ZSumSet(LAMBDA c : T.cell[c].jf[LocalOf(s.cells[c], n)][i][LocalOf(s.cells[c], p)][l], cs),
      mass |-> ZSumSet(LAMBDA c : T.cell[c].jm[LocalOf(s.cells[c], n)][i][LocalOf(s.cells[c], p)][l], cs),
      surf |-> ZSumSet(LAMBDA f : T.face[f].j[LocalOf(s.faces[f].nodes, n)][LocalOf(s.faces[f].nodes, p)], fs)]
Neigh(s, T, n) == {p \in 1..NNode(s) : T.nodeCells[n] \cap T.nodeCells[p] # {}}

Expected(s) ==
  LET T == Table(s)  dof == DofTab(s)  nc == NComp(s)
      pairs == {<<n, p>> \in (1..NNode(s)) \X (1..NNode(s)) : T.nodeCells[n] \cap T.nodeCells[p] # {}}
      NbrOf == [n \in 1..NNode(s) |-> UNION {{s.cells[c][a] + 1 : a \in 1..Len(s.cells[c])} : c \in T.nodeCells[n]}]
      allp == UNION {{<<n, p>> : p \in NbrOf[n]} : n \in 1..NNode(s)}
      E(n, i) == LET r == ResAt(s, T, n, i) IN <<dof[n][i], r.flux, r.mass, r.src, r.surf>>
      M(n, i, p, l) == LET r == JacAt(s, T, n, i, p, l) IN <<dof[n][i], dof[p][l], r.flux, r.mass, r.surf>>
  IN [id |-> s.id, den |-> <<DenFlux(s), DenMass(s), DenSrc(s), DenSurf(s)>>,
      res |-> {E(n, i) : n \in 1..NNode(s), i \in 1..nc},
      jac |-> UNION {{M(x[1], i, x[2], l) : i \in 1..nc, l \in 1..nc} : x \in allp},
      \* entries that each storage view keeps
      views |-> [v \in {"UPPER", "LOWER"} |-> Cardinality(UNION {{<<i, l>> \in (1..nc) \X (1..nc) : InView(v, dof[x[1]][i], dof[x[2]][l])} \X {x} : x \in allp})]]

----------------------------------------------------------------------------
(* The assembler: cells are taken in batches (any batches, any order), the last
   one padded; padded rows and entries outside the stored view go to a discard
   slot.  Its result must be the definition above, whatever the schedule.      *)
VARIABLES si, todoC, todoF, slots, discard, T0, view
vars == <<si, todoC, todoF, slots, discard, T0, view>>
S0 == Scens[si]
Slots(s, T, v) == {<<n, i, p, l>> \in (1..NNode(s)) \X (1..NComp(s)) \X (1..NNode(s)) \X (1..NComp(s)) :
                     T.nodeCells[n] \cap T.nodeCells[p] # {} /\ InView(v, DofTab(s)[n][i], DofTab(s)[p][l])}

Init == /\ si \in (IF MaxBatch = 0 THEN {0} ELSE {i \in 1..Len(Scens) : Len(Scens[i].cells) <= 4})
        /\ view \in (IF MaxBatch = 0 THEN {"FULL"} ELSE {"FULL", "UPPER", "LOWER"})
        /\ T0 = (IF si = 0 THEN <<>> ELSE Table(Scens[si]))
        /\ todoC = (IF si = 0 THEN {} ELSE Cells(Scens[si]))
        /\ todoF = (IF si = 0 THEN {} ELSE Faces(Scens[si]))
        /\ slots = (IF si = 0 THEN <<>> ELSE [x \in Slots(Scens[si], T0, view) |-> <<0, 0>>])
        /\ discard = 0

CellEntry(c, x) ==
  IF c \notin T0.nodeCells[x[1]] \/ c \notin T0.nodeCells[x[3]] THEN <<0, 0>>
  ELSE T0.cell[c].jm[LocalOf(S0.cells[c], x[1])][x[2]][LocalOf(S0.cells[c], x[3])][x[4]]
TakeBatch == \E B \in SUBSET todoC :
     /\ B # {} /\ Cardinality(B) <= MaxBatch
     /\ todoC' = todoC \ B
     /\ slots' = [x \in DOMAIN slots |-> ZAdd(slots[x], ZSumSet(LAMBDA c : CellEntry(c, x), B))]
     /\ discard' = discard + (MaxBatch - Cardinality(B))
     /\ UNCHANGED <<si, todoF, T0, view>>
FaceEntry(f, x) ==
  IF x[2] # x[4] \/ f \notin T0.nodeFaces[x[1]] \/ f \notin T0.nodeFaces[x[3]] THEN <<0, 0>>
  ELSE T0.face[f].j[LocalOf(S0.faces[f].nodes, x[1])][LocalOf(S0.faces[f].nodes, x[3])]
TakeFace == \E f \in todoF :
     /\ todoC = {}
     /\ todoF' = todoF \ {f}
     /\ slots' = [x \in DOMAIN slots |-> ZAdd(slots[x], FaceEntry(f, x))]
     /\ UNCHANGED <<si, todoC, discard, T0, view>>
Next == TakeBatch \/ TakeFace
Spec == Init /\ [][Next]_vars

(* the schedule is irrelevant *)
Confluent == (si # 0 /\ todoC = {} /\ todoF = {}) =>
   \A x \in DOMAIN slots : LET j == JacAt(S0, T0, x[1], x[2], x[3], x[4]) IN slots[x] = ZAdd(j.mass, j.surf)
(* a linear flux annihilates constants; a symmetric weak form has a symmetric tangent *)
RowSums == (si # 0 /\ todoC = Cells(S0) /\ S0.al = 0) =>
   \A n \in 1..NNode(S0), i \in 1..NComp(S0), l \in 1..NComp(S0) :
      ZSumSet(LAMBDA p : JacAt(S0, T0, n, i, p, l).flux, Neigh(S0, T0, n)) = <<0, 0>>
Symmetric == (si # 0 /\ todoC = Cells(S0) /\ S0.al = 0 /\ S0.be = 0 /\ S0.sym = 1) =>
   \A n \in 1..NNode(S0) : \A p \in Neigh(S0, T0, n), i \in 1..NComp(S0), l \in 1..NComp(S0) :
      JacAt(S0, T0, n, i, p, l) = JacAt(S0, T0, p, l, n, i)
(* the two triangles overlap exactly on the diagonal *)
ViewsCover == (si # 0 /\ todoC = Cells(S0)) =>
   LET u == Slots(S0, T0, "UPPER")  l == Slots(S0, T0, "LOWER")  f == Slots(S0, T0, "FULL")
   IN u \cup l = f /\ u \cap l = {x \in f : x[1] = x[3] /\ x[2] = x[4]}

EmitOne(i) == PrintT("@@" \o ToJson(Expected(Scens[i])))
EmitAll == (si = 0 /\ Emit) => \A i \in 1..Len(Scens) : EmitOne(i)
=============================================================================
