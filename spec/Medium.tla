-------------------------------- MODULE Medium --------------------------------
(* C24: third-medium contact.  Homogeneous deformation F (integer): first Piola     *)
(* stress mu F + (lambda ln J - mu) F^-T and its tangent from integer cofactors;      *)
(* the regularisation works on second derivatives of medium cells only.              *)
EXTENDS VLib, Json
CONSTANTS ScenFile, Emit
VARIABLES i
Scens == JsonDeserialize(ScenFile)
Cof(F) == LET d == Len(F) IN [a \in 1..d |-> [b \in 1..d |-> (IF (a + b) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(F, a, b))]]
MM(A, B) == [r \in 1..Len(A) |-> [c \in 1..Len(B[1]) |-> SumOver(LAMBDA m : A[r][m] * B[m][c], 1, Len(B))]]
DD(A, B) == SumOver(LAMBDA a : Dot(A[a], B[a]), 1, Len(A))
(* quadratic fields: second derivatives Hu[v], symmetric integer matrices *)
Lap(H) == SumOver(LAMBDA a : H[a][a], 1, Len(H))
Reg(Hu, Hv) == LET d == Len(Hu[1]) IN SumOver(LAMBDA v : d * DD(Hu[v], Hv[v]) - Lap(Hu[v]) * Lap(Hv[v]), 1, Len(Hu))                       \* over d, per unit volume
Rec(s) == LET C == Cof(s.F) IN [id |-> s.id, J |-> Det(s.F), FV |-> DD(s.F, s.V), CV |-> DD(C, s.V), GV |-> DD(s.G, s.V), CG |-> DD(C, s.G), CGC |-> DD(MM(MM(C, Transpose(s.G)), C), s.V), reg |-> Reg(s.Hu, s.Hv), med |-> SumSeq(s.med)]
OK(s) == LET C == Cof(s.F)  d == Len(s.F) IN /\ MM(Transpose(C), s.F) = [a \in 1..d |-> [b \in 1..d |-> IF a = b THEN Det(s.F) ELSE 0]]
                                              /\ Reg(s.Hu, s.Hu) >= 0 /\ Reg(s.Hu, s.Hv) = Reg(s.Hv, s.Hu)                                     \* deviatoric part: non-negative and symmetric
                                              /\ (\A v \in 1..Len(s.Hu) : \A a, b \in 1..d : s.Hu[v][a][b] = IF a = b THEN s.Hu[v][1][1] ELSE 0) => Reg(s.Hu, s.Hv) = 0
Init == i = 0
Next == i < Len(Scens) /\ i' = i + 1 /\ (Emit => PrintT("@@" \o ToJson(Rec(Scens[i + 1]))))
Spec == Init /\ [][Next]_i
AllOK == i > 0 => OK(Scens[i])
=============================================================================
