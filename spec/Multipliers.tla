----------------------------- MODULE Multipliers -----------------------------
(* C17: the modified differential multiplier method in exact integers: gradient    *)
(* descent in the design and the slacks, ascent in the multipliers, for any set of *)
(* equality and inequality constraints (each with several components, damping,     *)
(* weight).  Constraint component k: g(x) = a.x + b + q x_1^2.                      *)
EXTENDS VLib, Json
CONSTANTS ScenFile, Emit
VARIABLES n, x, lam, sl, log, acc
vars == <<n, x, lam, sl, log, acc>>
Ms == JsonDeserialize(ScenFile)      \* [x, f, steps, cons |-> seq of [ineq, damp, wt, rows |-> seq of [a, b, q]]]
S == Ms[n]
C == S.cons
G(r, y) == Dot(r.a, y) + r.b + r.q * y[1] * y[1]
DG(r, y) == [k \in 1..Len(y) |-> r.a[k] + (IF k = 1 THEN 2 * r.q * y[1] ELSE 0)]
Inf(c, k) == G(C[c].rows[k], x) - (IF C[c].ineq THEN sl[c][k] * sl[c][k] ELSE 0)
Pull(c, k) == C[c].wt * (lam[c][k] + C[c].damp * Inf(c, k))
(* objective sum f_k x_k^2 / 2 *)
GradX == [j \in 1..Len(x) |-> S.f[j] * x[j] + SumOver(LAMBDA c : SumOver(LAMBDA k : Pull(c, k) * DG(C[c].rows[k], x)[j], 1, Len(C[c].rows)), 1, Len(C))]
Loss2 == SumOver(LAMBDA c : C[c].wt * SumOver(LAMBDA k : 2 * lam[c][k] * Inf(c, k) + C[c].damp * Inf(c, k) * Inf(c, k), 1, Len(C[c].rows)), 1, Len(C))
Per(F(_, _)) == [c \in 1..Len(C) |-> [k \in 1..Len(C[c].rows) |-> F(c, k)]]
InfAll == Per(LAMBDA c, k : Inf(c, k))
(* square roots of the initial slack come with the scenario; they must be right *)
Root(v) == IF v <= 0 THEN 0 ELSE CHOOSE r \in 0..v : r * r = v
Init == /\ n \in 1..Len(Ms) /\ x = S.x /\ log = <<>>
        /\ lam = [c \in 1..Len(C) |-> [k \in 1..Len(C[c].rows) |-> 0]]
        /\ sl = [c \in 1..Len(C) |-> [k \in 1..Len(C[c].rows) |-> IF C[c].ineq THEN Root(G(C[c].rows[k], S.x)) ELSE 0]]
        /\ acc = [c \in 1..Len(C) |-> [k \in 1..Len(C[c].rows) |-> 0]]
Small == \A j \in 1..Len(x) : Abs(x[j]) < 300 /\ \A c \in 1..Len(C) : \A k \in 1..Len(C[c].rows) : Abs(lam[c][k]) < 3000 /\ sl[c][k] < 60 /\ sl[c][k] > -60 /\ Abs(Inf(c, k)) < 3000
Obs == [x |-> x, lam |-> lam, sl |-> sl, inf |-> InfAll, loss2 |-> Loss2, f2 |-> SumOver(LAMBDA j : S.f[j] * x[j] * x[j], 1, Len(x))]
Step == /\ Len(log) < S.steps /\ Small
        /\ x' = [j \in 1..Len(x) |-> x[j] - GradX[j]]
        /\ lam' = Per(LAMBDA c, k : lam[c][k] + C[c].wt * Inf(c, k))
        /\ sl' = Per(LAMBDA c, k : IF C[c].ineq THEN sl[c][k] + 2 * sl[c][k] * Pull(c, k) ELSE 0)
        /\ acc' = Per(LAMBDA c, k : acc[c][k] + C[c].wt * Inf(c, k))
        /\ log' = Append(log, Obs) /\ UNCHANGED n
Stop == (Len(log) = S.steps \/ ~Small) /\ Emit /\ PrintT("@@" \o ToJson([n |-> n, log |-> log])) /\ UNCHANGED vars
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
MultiplierIsAccumulatedViolation == lam = acc
FeasibleStartsBalanced == log = <<>> => \A c \in 1..Len(C) : \A k \in 1..Len(C[c].rows) : C[c].ineq /\ G(C[c].rows[k], S.x) >= 0 => Inf(c, k) = 0
(* at rest: a stationary point satisfies every constraint and balances the forces *)
RestIsOptimal == (x' = x /\ lam' = lam /\ sl' = sl) => \A c \in 1..Len(C) : \A k \in 1..Len(C[c].rows) : C[c].wt # 0 => Inf(c, k) = 0
Rest == [][Step => RestIsOptimal]_vars
=============================================================================
