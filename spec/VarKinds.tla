------------------------------ MODULE VarKinds ------------------------------
(* C14: what an array given as a volume parameter means.  Cell data before quad  *)
(* data before node data; a single value is uniform; anything else is refused.   *)
(* The exact integral of the parameter over the mesh (times 12) decides: all      *)
(* consumers must see the same field.                                            *)
EXTENDS VLib, Json
CONSTANTS ScenFile, Emit
VARIABLES i, done
Scens == JsonDeserialize(ScenFile)     \* [id, fes: <<[cells, nn, w12]>>, vol12 (per cell), nq, arr: [shape, data (rows)]]
NCells(s) == Len(s.fes[1].cells)
Kind(s) == LET n == s.shape[1]  d == Len(s.shape) IN
  IF n = NCells(s) THEN (IF d = 2 /\ s.shape[2] = s.nq THEN <<"quad", 1>> ELSE <<"cell", 1>>)
  ELSE IF \E f \in 1..Len(s.fes) : s.fes[f].nn = n THEN <<"node", CHOOSE f \in 1..Len(s.fes) : s.fes[f].nn = n /\ \A g \in 1..(f - 1) : s.fes[g].nn # n>>
  ELSE IF n = 1 THEN <<"uniform", 1>> ELSE <<"refused", 0>>
Comp(s) == IF Len(s.shape) = 2 THEN s.shape[2] ELSE 1
At(s, r, k) == IF Len(s.shape) = 2 THEN s.data[r][k] ELSE s.data[r]
CellInt(s, c, k) ==        \* 12 * integral over cell c of component k
  LET kd == Kind(s) IN
  CASE kd[1] = "cell" -> s.vol12 * At(s, c, k)
    [] kd[1] = "uniform" -> s.vol12 * At(s, 1, k)
    [] kd[1] = "node" -> LET F == s.fes[kd[2]] IN SumOver(LAMBDA a : F.w12[a] * At(s, F.cells[c][a] + 1, k), 1, Len(F.w12))
    [] kd[1] = "quad" -> (s.vol12 \div s.nq) * SumOver(LAMBDA q : s.data[c][q], 1, s.nq)
Comps(s) == IF Kind(s)[1] = "quad" THEN 1 ELSE Comp(s)
Out(s) == [id |-> s.id, kind |-> Kind(s)[1], fe |-> Kind(s)[2] - 1,
           cells |-> IF Kind(s)[1] = "refused" THEN <<>> ELSE [c \in 1..NCells(s) |-> [k \in 1..Comps(s) |-> CellInt(s, c, k)]]]
Init == i = 0 /\ done = FALSE
Next == i < Len(Scens) /\ i' = i + 1 /\ UNCHANGED done /\ (Emit => PrintT("@@" \o ToJson(Out(Scens[i + 1]))))
Spec == Init /\ [][Next]_<<i, done>>
(* a constant array integrates to the constant times the volume, whatever its kind *)
ConstantsExact == i > 0 => LET s == Scens[i] IN (Kind(s)[1] # "refused" /\ \A r \in 1..Len(s.data) : \A k \in 1..Comp(s) : At(s, r, k) = At(s, 1, 1)) => \A c \in 1..NCells(s) : \A k \in 1..Comps(s) : CellInt(s, c, k) = s.vol12 * At(s, 1, 1)
=============================================================================
