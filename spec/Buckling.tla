------------------------------ MODULE Buckling ------------------------------
(* Linear buckling pencils (K + lambda Kg) phi = 0 with exactly known answers. *)
(* A pencil is grown by elementary row operations on an integer matrix A       *)
(* (unimodular by construction, its inverse B grown beside it):                *)
(*     K = A'A,   Kg = -A' diag(m) A                                           *)
(* so the modes are the columns of B, K-orthonormal, and the load factor of    *)
(* mode i is 1/m[i]: positive, negative or infinite with the sign of m[i].     *)
(* A system is a list of such blocks; its lowest positive factors are the      *)
(* largest positive m over all blocks, padded with "none" (m = 0).             *)
EXTENDS VLib, Json
CONSTANTS ScenFile, Emit
S == JsonDeserialize(ScenFile)     \* sequence of systems: [blocks: seq of [n, ops: seq of <<i,j,c>>, m: seq of int], want: Nat]
VARIABLES sys, b, st, A, B, done
vars == <<sys, b, st, A, B, done>>

Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Mul(P, Q) == [i \in 1..Len(P) |-> [j \in 1..Len(Q[1]) |-> SumOver(LAMBDA k : P[i][k] * Q[k][j], 1, Len(Q))]]
Diag(m) == [i \in 1..Len(m) |-> [j \in 1..Len(m) |-> IF i = j THEN m[i] ELSE 0]]
Neg(P) == [i \in 1..Len(P) |-> [j \in 1..Len(P) |-> -P[i][j]]]
Kof(X) == Mul(Transpose(X), X)
Gof(X, m) == Neg(Mul(Transpose(X), Mul(Diag(m), X)))
Col(P, j) == [i \in 1..Len(P) |-> P[i][j]]
VecAdd(u, w) == [i \in 1..Len(u) |-> u[i] + w[i]]
VecScale(k, u) == [i \in 1..Len(u) |-> k * u[i]]

Blk == S[sys].blocks[b]
Init == sys \in 1..Len(S) /\ b = 1 /\ st = 0 /\ A = Id(S[sys].blocks[1].n) /\ B = A /\ done = <<>>
(* row i of A gains c times row j; column j of the inverse loses c times column i *)
Step == /\ st < Len(Blk.ops)
        /\ LET o == Blk.ops[st + 1] IN
           /\ A' = [r \in 1..Len(A) |-> IF r = o[1] THEN VecAdd(A[r], VecScale(o[3], A[o[2]])) ELSE A[r]]
           /\ B' = [r \in 1..Len(B) |-> [q \in 1..Len(B) |-> IF q = o[2] THEN B[r][q] - o[3] * B[r][o[1]] ELSE B[r][q]]]
        /\ st' = st + 1 /\ UNCHANGED <<sys, b, done>>
Rec == [k |-> Kof(A), g |-> Gof(A, Blk.m), phi |-> B, m |-> Blk.m]
(* modes of the whole system, lowest positive factor (largest m) first *)
All(d) == UNION {{<<d[k].m[i], k, i>> : i \in {j \in 1..Len(d[k].m) : d[k].m[j] > 0}} : k \in 1..Len(d)}
Order(d) == SetToSortSeq(All(d), LAMBDA x, y : x[1] > y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3]))))
Wanted(d, n) == LET o == Order(d) IN [i \in 1..n |-> IF i <= Len(o) THEN o[i] ELSE <<0, 0, 0>>]
NextBlock == /\ st = Len(Blk.ops) /\ b <= Len(S[sys].blocks) /\ Len(done) < b
             /\ done' = Append(done, Rec)
             /\ IF b < Len(S[sys].blocks)
                THEN /\ b' = b + 1 /\ st' = 0 /\ A' = Id(S[sys].blocks[b + 1].n) /\ B' = A' /\ UNCHANGED sys
                ELSE /\ UNCHANGED <<sys, b, st, A, B>>
                     /\ (Emit => PrintT("@@" \o ToJson([n |-> sys, blocks |-> done', want |-> Wanted(done', S[sys].want), npos |-> Len(Order(done'))])))
Next == Step \/ NextBlock
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- the exact facts the replay relies on ---- *)
InverseGrows == Mul(A, B) = Id(Len(A))
Symmetric == (st = Len(Blk.ops)) => LET K == Kof(A) G == Gof(A, Blk.m) IN \A i, j \in 1..Len(A) : K[i][j] = K[j][i] /\ G[i][j] = G[j][i]
EigenEquation == (st = Len(Blk.ops)) => LET K == Kof(A) G == Gof(A, Blk.m) IN \A i \in 1..Len(A) :
   VecAdd(VecScale(Blk.m[i], MatVec(K, Col(B, i))), MatVec(G, Col(B, i))) = [r \in 1..Len(A) |-> 0]
KOrthonormal == (st = Len(Blk.ops)) => LET K == Kof(A) IN \A i, j \in 1..Len(A) : Dot(Col(B, i), MatVec(K, Col(B, j))) = (IF i = j THEN 1 ELSE 0)
(* sensitivity: along dK = A' diag(e_i) A the factor of mode i, (1+t)/m[i], changes at rate (1/m) phi'dK phi and no other mode moves;
   along dKg = -A' diag(e_i) A it is 1/(m[i]+t), of rate -1/m^2 = (1/m)^2 phi' dKg phi *)
Grown == st = Len(Blk.ops)
Sensitivity == (Grown /\ Len(A) <= 4) => \A i, p \in 1..Len(A) :
   LET e == [q \in 1..Len(A) |-> IF q = p THEN 1 ELSE 0]
       dK == Mul(Transpose(A), Mul(Diag(e), A)) IN
   Dot(Col(B, i), MatVec(dK, Col(B, i))) = (IF i = p THEN 1 ELSE 0)
(* none skipped, none duplicated, ascending factors, padding only when exhausted *)
Complete == Len(done) = Len(S[sys].blocks) =>
   LET w == Wanted(done, S[sys].want)  n == Len(Order(done)) IN
   /\ \A i \in 1..(Len(w) - 1) : w[i][1] >= w[i + 1][1]
   /\ \A i, j \in 1..Len(w) : (w[i] = w[j] /\ w[i][1] > 0) => i = j
   /\ \A x \in All(done) : x \in RangeOf(w) \/ (\A i \in 1..Len(w) : w[i][1] >= x[1])
   /\ \A i \in 1..Len(w) : w[i][1] = 0 <=> i > n
Finishes == <>(Len(done) = Len(S[sys].blocks))
=============================================================================
