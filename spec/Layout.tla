------------------------------- MODULE Layout -------------------------------
(* C14: where a degree of freedom lives.  Enumerates layouts (variables with     *)
(* their own node counts and components) and emits the entry of every field,     *)
(* plus exact results of the vector arithmetic.                                  *)
EXTENDS VLib, Json
CONSTANTS MaxVars, NodeCounts, Vecs, Emit
VARIABLES lay, k
Layouts == UNION {[1..n -> NodeCounts \X Vecs] : n \in 1..MaxVars}
Size(l, i) == l[i][1] * l[i][2]
Off(l, i) == SumOver(LAMBDA j : Size(l, j), 1, i - 1)
Total(l) == Off(l, Len(l) + 1)
Dof(l, i, n, c) == Off(l, i) + n * l[i][2] + c                   \* n, c from 0
Fields(l) == [i \in 1..Len(l) |-> [n \in 1..l[i][1] |-> [c \in 1..l[i][2] |-> Dof(l, i, n - 1, c - 1)]]]
X(l) == [d \in 1..Total(l) |-> ((d * 7) % 11) - 5]
Y(l) == [d \in 1..Total(l) |-> ((d * 5) % 7) + 1]
V2(F(_, _), l) == [d \in 1..Total(l) |-> F(X(l)[d], Y(l)[d])]
Arith(l) == [add |-> V2(LAMBDA x, y : x + y, l), sub |-> V2(LAMBDA x, y : x - y, l), mul |-> V2(LAMBDA x, y : x * y, l), neg |-> V2(LAMBDA x, y : -x, l), sq |-> V2(LAMBDA x, y : x * x, l),
             dot |-> Dot(X(l), Y(l)), add3 |-> V2(LAMBDA x, y : x + 3, l), rsub |-> V2(LAMBDA x, y : 3 - x, l), xy |-> <<X(l), Y(l)>>]
Init == lay \in Layouts /\ k = 0
Next == k = 0 /\ k' = 1 /\ UNCHANGED lay /\ (Emit => PrintT("@@" \o ToJson([lay |-> lay, total |-> Total(lay), fields |-> Fields(lay), ar |-> Arith(lay)])))
Spec == Init /\ [][Next]_<<lay, k>>
Triples(l) == UNION {{<<i, n, c>> : n \in 0..l[i][1] - 1, c \in 0..l[i][2] - 1} : i \in 1..Len(l)}
LayoutBijective == /\ {Dof(lay, t[1], t[2], t[3]) : t \in Triples(lay)} = 0..Total(lay) - 1
             /\ Cardinality(Triples(lay)) = Total(lay)
=============================================================================
