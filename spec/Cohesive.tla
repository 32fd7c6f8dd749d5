-------------------------------- MODULE Cohesive --------------------------------
(* C24: cohesive interfaces.  A history of displacement states at node pairs: the   *)
(* effective opening, the irreversible maximum and the branch (virgin, unloading,    *)
(* failed) decide energy and traction.  Quasi-static pulling of two blocks follows    *)
(* the same machine with exact rational equilibria.                                  *)
EXTENDS VLib, Json
CONSTANTS ScenFile, Emit
VARIABLES s, k, mx, out                       \* scenario, step, history (per pair), last record
Scens == JsonDeserialize(ScenFile)
SC == Scens[s]
vars == <<s, k, mx, out>>
(* ---- rationals ---- *)
Rt(n, d) == LET g == GCD0(n, d)  h == IF g = 0 THEN 1 ELSE g  e == IF d < 0 THEN -1 ELSE 1 IN <<(e * n) \div h, (e * d) \div h>>
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RMul(a, b) == Rt(a[1] * b[1], a[2] * b[2])
RAdd(a, b) == Rt(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RDiv(a, b) == Rt(a[1] * b[2], a[2] * b[1])
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
(* ---- pointwise interface: jumps are integers, normals N / den, beta^2 = bq / 4; X = 4 den^2 delta^2 ---- *)
Jump(u, p) == LET t == SC.top[p]  b == SC.bot[p] IN [a \in 1..SC.vec |-> u[t][a] - u[b][a]]
Nj(u, p) == Dot(Jump(u, p), SC.N[p])
X(u, p) == LET q == Nj(u, p)  pos == Max2(q, 0)  j == Jump(u, p) IN 4 * pos * pos + SC.bq * (SC.den * SC.den * Dot(j, j) - q * q)
Dir(u, p) == LET q == Nj(u, p)  j == Jump(u, p) IN [a \in 1..SC.vec |-> 4 * Max2(q, 0) * SC.N[p][a] + SC.bq * (SC.den * SC.den * j[a] - q * SC.N[p][a])]     \* over 4 den^2: delta times its gradient
Failed(x) == x * SC.sig * SC.sig >= 16 * SC.den * SC.den * SC.gam * SC.gam                       \* delta >= 2 Gamma / sigma
Branch(x, m) == IF x >= m THEN (IF Failed(x) THEN "failed" ELSE "virgin") ELSE "unload"
Point(u, p) == LET x == X(u, p) IN [x |-> x, m |-> mx[p], b |-> Branch(x, mx[p]), mf |-> Failed(mx[p]), dir |-> Dir(u, p), nj |-> Nj(u, p), jj |-> Dot(Jump(u, p), Jump(u, p))]
StepPts == /\ SC.kind = "pts" /\ k < Len(SC.u)
           /\ LET st == SC.u[k + 1]  r == [p \in 1..Len(SC.top) |-> Point(st.v, p)] IN
              /\ out' = [id |-> SC.id, kind |-> "pts", k |-> k + 1, r |-> r]
              /\ mx' = IF st.commit = 1 THEN [p \in 1..Len(SC.top) |-> Max2(mx[p], r[p].x)] ELSE mx                \* a trial state leaves the history alone
           /\ k' = k + 1 /\ UNCHANGED s
(* ---- two blocks of height H and modulus E pulled apart by U = w / 4; one opening, history mx[1] (rational) ---- *)
Df == Rt(2 * SC.gam, SC.sig)
K0 == Rt(SC.sig * SC.sig, 2 * SC.gam)
Solve(U, K) == RDiv(RMul(<<SC.E, 1>>, U), RAdd(<<SC.E, 1>>, RMul(K, <<SC.H, 1>>)))                      \* E (U - d) / H = K d
Ksec == IF RLt(mx[1], Df) THEN K0 ELSE RDiv(<<2 * SC.gam, 1>>, RMul(mx[1], mx[1]))
Equilibria(U) == {z \in {<<"virgin", Solve(U, K0)>>, <<"unload", Solve(U, Ksec)>>, <<"failed", U>>} :
                    CASE z[1] = "virgin" -> RLe(mx[1], z[2]) /\ RLt(z[2], Df) [] z[1] = "unload" -> RLt(z[2], mx[1]) [] OTHER -> RLe(mx[1], z[2]) /\ RLe(Df, z[2])}
StepPull == /\ SC.kind = "pull" /\ k < Len(SC.w)
            /\ LET U == Rt(SC.w[k + 1], 4)  Q == IF U[1] <= 0 THEN {<<"closed", U>>} ELSE Equilibria(U) IN
               IF Cardinality(Q) # 1 \/ \E z \in Q : z[1] # "closed" /\ (z[2] = mx[1] \/ z[2] = Df) THEN /\ out' = [id |-> SC.id, kind |-> "skip", k |-> k + 1] /\ UNCHANGED mx
               ELSE LET z == CHOOSE x \in Q : TRUE IN /\ out' = [id |-> SC.id, kind |-> "pull", k |-> k + 1, U |-> U, d |-> z[2], b |-> z[1], m |-> mx[1]]
                                                       /\ mx' = <<RMax(mx[1], z[2])>>
            /\ k' = k + 1 /\ UNCHANGED s
(* ---- weights ---- *)
Trap(x) == [i \in 1..Len(x) |-> (IF i > 1 THEN x[i] - x[i - 1] ELSE 0) + (IF i < Len(x) THEN x[i + 1] - x[i] ELSE 0)]                                       \* doubled
Area2(q) == LET p(i) == SC.xy[q[i] + 1] IN Abs((p(3)[1] - p(1)[1]) * (p(4)[2] - p(2)[2]) - (p(3)[2] - p(1)[2]) * (p(4)[1] - p(2)[1]))                         \* doubled area in the plane
Lump == [i \in 1..Len(SC.ids) |-> SumSeq([q \in 1..Len(SC.quads) |-> IF \E c \in 1..4 : SC.quads[q][c] = SC.ids[i] THEN Area2(SC.quads[q]) ELSE 0])]             \* times 8
StepW == /\ SC.kind = "wts" /\ k = 0 /\ k' = 1 /\ UNCHANGED <<s, mx>> /\ out' = [id |-> SC.id, kind |-> "wts", k |-> 1, trap2 |-> Trap(SC.x), lump8 |-> Lump]
Init == s \in 1..Len(Scens) /\ k = 0 /\ out = <<>> /\ mx = IF Scens[s].kind = "pts" THEN [p \in 1..Len(Scens[s].top) |-> 0] ELSE <<<<0, 1>>>>
Next == (StepPts \/ StepPull \/ StepW) /\ (Emit => PrintT("@@" \o ToJson(out')))
Spec == Init /\ [][Next]_vars
Irreversible == [][\A p \in 1..Len(mx) : IF SC.kind = "pts" THEN mx'[p] >= mx[p] ELSE RLe(mx[p], mx'[p])]_vars
Shape == (out # <<>> /\ out.kind = "pts") => \A p \in 1..Len(out.r) : LET r == out.r[p] IN
   /\ r.x >= 0 /\ (r.nj <= 0 /\ SC.bq = 0 => r.x = 0 /\ \A a \in 1..SC.vec : r.dir[a] = 0)                       \* closing costs nothing in pure opening mode
   /\ (SC.bq = 4 /\ r.nj >= 0 => r.x = 4 * SC.den * SC.den * r.jj)                                                \* equal weights: the opening is the length of the jump
   /\ (r.b = "unload" => r.x < r.m)
Bounded == (out # <<>> /\ out.kind = "pull") => CASE out.b = "closed" -> TRUE [] out.b = "virgin" -> RLt(RMul(K0, out.d), <<SC.sig, 1>>) [] OTHER -> RLe(out.d, out.U)          \* traction never exceeds the strength
WeightsAdd == (out # <<>> /\ out.kind = "wts") => SumSeq(out.trap2) = 2 * (SC.x[Len(SC.x)] - SC.x[1]) /\ (SC.all = 1 => SumSeq(out.lump8) = 4 * SumSeq([q \in 1..Len(SC.quads) |-> Area2(SC.quads[q])]))
=============================================================================
