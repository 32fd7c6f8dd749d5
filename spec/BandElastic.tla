----------------------------- MODULE BandElastic -----------------------------
(* C13: linear elasticity with cell-wise SIMP stiffness on the active cells of a  *)
(* box grid, exactly: for integer displacements u the nodal forces K(rho) u and    *)
(* the element energies, in units of 1 / (72 hx hy hz den 8 2^pen).                *)
EXTENDS VLib, Json
CONSTANTS ScenFile, Emit
VARIABLES i, done
Scens == JsonDeserialize(ScenFile)              \* [id, dims, h, cells(order), r(2 rho), pen, e0, lam, mu, u (by global node id)]
CellOf(d, e) == <<e \div (d[2] * d[3]), (e \div d[3]) % d[2], e % d[3]>>
NodeId(d, n) == (n[1] * (d[2] + 1) + n[2]) * (d[3] + 1) + n[3]
Corner(a) == <<a \div 4, (a \div 2) % 2, a % 2>>                                \* a in 0..7
Sg(a, k) == 2 * Corner(a)[k] - 1
Mass(a, b, k) == IF Corner(a)[k] = Corner(b)[k] THEN 2 ELSE 1                 \* times h/6
(* 72 h1 h2 h3 * integral of d_p N_a d_q N_b *)
G(h, a, b, p, q) ==
  IF p = q THEN LET o == {1, 2, 3} \ {p}  j == CHOOSE x \in o : TRUE  l == CHOOSE x \in o : x # j IN
                2 * (Sg(a, p) * Sg(b, p)) * Mass(a, b, j) * Mass(a, b, l) * h[j] * h[j] * h[l] * h[l]
  ELSE LET l == CHOOSE x \in {1, 2, 3} : x # p /\ x # q IN 3 * Sg(a, p) * Sg(b, q) * Mass(a, b, l) * h[1] * h[2] * h[3] * h[l]
Ke(s, a, p, b, q) == s.lam * G(s.h, a, b, p, q) + s.mu * (G(s.h, a, b, q, p) + (IF p = q THEN G(s.h, a, b, 1, 1) + G(s.h, a, b, 2, 2) + G(s.h, a, b, 3, 3) ELSE 0))
KeTab(s) == [a \in 0..7 |-> [p \in 1..3 |-> [b \in 0..7 |-> [q \in 1..3 |-> Ke(s, a, p, b, q)]]]]
E8(s, n) == Pow(2, s.pen) + Pow(s.r[n], s.pen) * (8 * s.e0 - 1)              \* 8 2^pen E,  Emin = 1/8
CNode(s, e, a) == LET c == CellOf(s.dims, e)  k == Corner(a) IN NodeId(s.dims, <<c[1] + k[1], c[2] + k[2], c[3] + k[3]>>)
Fe(T, ue) == [a \in 0..7 |-> [p \in 1..3 |-> SumOver(LAMBDA b : T[a][p][b][1] * ue[b][1] + T[a][p][b][2] * ue[b][2] + T[a][p][b][3] * ue[b][3], 0, 7)]]
Ue(s, n) == [a \in 0..7 |-> s.u[CNode(s, s.cells[n], a) + 1]]
BandNodes(s) == SortSet({CNode(s, s.cells[n], a) : n \in 1..Len(s.cells), a \in 0..7})
Out(s) == LET T == KeTab(s)
              f == [n \in 1..Len(s.cells) |-> Fe(T, Ue(s, n))]
              nodes == BandNodes(s)
              contrib(g, p) == SumOver(LAMBDA n : SumOver(LAMBDA a : IF CNode(s, s.cells[n], a) = g THEN E8(s, n) * f[n][a][p] ELSE 0, 0, 7), 1, Len(s.cells))
          IN [id |-> s.id, nodes |-> nodes, b |-> [k \in 1..Len(nodes) |-> [p \in 1..3 |-> contrib(nodes[k], p)]],
              ce |-> [n \in 1..Len(s.cells) |-> SumOver(LAMBDA a : Dot(Ue(s, n)[a], f[n][a]), 0, 7)], e8 |-> [n \in 1..Len(s.cells) |-> E8(s, n)]]
Init == i = 0 /\ done = FALSE
Next == i < Len(Scens) /\ i' = i + 1 /\ UNCHANGED done /\ (Emit => PrintT("@@" \o ToJson(Out(Scens[i + 1]))))
Spec == Init /\ [][Next]_<<i, done>>
(* symmetry and rigid translations of the element table *)
Sound == i > 0 => LET T == KeTab(Scens[i]) IN
   /\ \A a, b \in 0..7 : \A p, q \in 1..3 : T[a][p][b][q] = T[b][q][a][p]
   /\ \A a \in 0..7 : \A p, q \in 1..3 : SumOver(LAMBDA b : T[a][p][b][q], 0, 7) = 0
=============================================================================
