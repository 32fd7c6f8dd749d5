------------------------------ MODULE Responses ------------------------------
(* C11: ready-made responses on unit QUAD4 boxes, exactly.  Compliance: minus the *)
(* integral over every loaded face of traction . u (times 6); volume fraction of  *)
(* nodal, cell and quadrature densities (times 4 cells).  Transfer between meshes: *)
(* barycentric interpolation of integer fields (exact numerators).                 *)
EXTENDS VLib, Json
CONSTANTS ScenFile, Emit
VARIABLES i, done
Scens == JsonDeserialize(ScenFile)
U(s, n, k) == s.u[n + 1][k]
(* traction t (T + g u) on an edge of unit length between nodes a and b, u linear *)
EdgeK(s, f, S, k) == LET p == U(s, f[1], k)  q == U(s, f[2], k) IN S.t * (3 * S.T[k] * (p + q) + 2 * S.g * (p * p + p * q + q * q))     \* 6 * integral
Surf6(s, S) == SumOver(LAMBDA m : SumOver(LAMBDA k : EdgeK(s, S.faces[m], S, k), 1, Len(S.T)), 1, Len(S.faces))
Compliance6(s) == 0 - SumOver(LAMBDA m : Surf6(s, s.surf[m]), 1, Len(s.surf))
CellMean4(s, c) == SumOver(LAMBDA k : s.rn[s.cells[c][k] + 1], 1, 4)
VolNode4(s) == SumOver(LAMBDA c : CellMean4(s, c), 1, Len(s.cells))
VolCell(s) == SumSeq(s.rc)
VolQuad4(s) == SumOver(LAMBDA c : SumSeq(s.rq[c]), 1, Len(s.rq))
Out(s) == [id |-> s.id, comp6 |-> Compliance6(s), node4 |-> VolNode4(s), cell |-> VolCell(s), quad4 |-> VolQuad4(s), ncells |-> Len(s.cells)]
Init == i = 0 /\ done = FALSE
Next == i < Len(Scens) /\ i' = i + 1 /\ UNCHANGED done /\ (Emit => PrintT("@@" \o ToJson(Out(Scens[i + 1]))))
Spec == Init /\ [][Next]_<<i, done>>
(* the compliance of a load that does not depend on u is linear in u: scaling u scales it *)
Linear == i > 0 => LET s == Scens[i]  s2 == [s EXCEPT !.u = [n \in DOMAIN s.u |-> [k \in DOMAIN s.u[n] |-> 2 * s.u[n][k]]]] IN
   (\A m \in 1..Len(s.surf) : s.surf[m].g = 0) => Compliance6(s2) = 2 * Compliance6(s)
=============================================================================
