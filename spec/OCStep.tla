------------------------------- MODULE OCStep -------------------------------
(* C17: histories of optimality-criteria updates.  A step is described by the    *)
(* multiplier-free factor f_e = (-dc_e / (dv_e * lambda))^damping of every cell;  *)
(* the sensitivity that produces it is dc_e = -lambda * dv_e * f_e^(1/damping).   *)
(* Densities are integers over Unit; move, xmin, xmax likewise.                   *)
EXTENDS VLib, Json
CONSTANTS ScenFile, MaxLen, Emit
VARIABLES m, rho, log
vars == <<m, rho, log>>
Ms == JsonDeserialize(ScenFile)         \* [rho, dv, move, xmin, xmax, menu |-> sequence of factor vectors <<num, den>> per cell]
S == Ms[m]
N == Len(rho)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Lim(x, r) == Clip(Clip(x, r - S.move, r + S.move), S.xmin, S.xmax)
Vol(r) == SumOver(LAMBDA e : r[e] * S.dv[e], 1, Len(r))
New(f) == [e \in 1..N |-> Lim((rho[e] * f[e][1]) \div f[e][2], rho[e])]
Divides(f) == \A e \in 1..N : (rho[e] * f[e][1]) % f[e][2] = 0
Lo == [e \in 1..N |-> Lim(0, rho[e])]
Hi(f) == [e \in 1..N |-> IF f[e][1] > 0 /\ rho[e] > 0 THEN Lim(100000, rho[e]) ELSE Lim(0, rho[e])]
Rec(kind, j, new, target) == [kind |-> kind, j |-> j, rho |-> rho, new |-> new, target |-> target]
Step(kind, j, new, target) == rho' = new /\ UNCHANGED m /\ log' = Append(log, Rec(kind, j, new, target))
(* a reachable target: the volume of the update at lambda *)
Meet == \E j \in 1..Len(S.menu) : Divides(S.menu[j]) /\ Step("meet", j, New(S.menu[j]), Vol(New(S.menu[j])))
(* an unreachable target: the step goes as far as its limits allow *)
Starve == \E j \in 1..Len(S.menu) : Step("low", j, Lo, Vol(Lo) - 1 - (Vol(rho) \div 2))
Flood == \E j \in 1..Len(S.menu) : Step("high", j, Hi(S.menu[j]), Vol(Hi(S.menu[j])) + 1 + (Vol(rho) \div 2))
Init == m \in 1..Len(Ms) /\ rho = Ms[m].rho /\ log = <<>>
Next == (Len(log) < MaxLen /\ (Meet \/ Starve \/ Flood)) \/ (Len(log) = MaxLen /\ Emit /\ PrintT("@@" \o ToJson([m |-> m, log |-> log])) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Bounded == log # <<>> => \A e \in 1..N : rho[e] >= S.xmin /\ rho[e] <= S.xmax
MoveLimit == \A k \in 1..Len(log) : \A e \in 1..N : LET r == log[k] IN
   (r.rho[e] >= S.xmin /\ r.rho[e] <= S.xmax) => Abs(r.new[e] - r.rho[e]) <= S.move
Meets == \A k \in 1..Len(log) : LET r == log[k] IN
   /\ (r.kind = "meet" => Vol(r.new) = r.target) /\ (r.kind = "low" => Vol(r.new) > r.target) /\ (r.kind = "high" => Vol(r.new) < r.target)
(* the volume never grows with the multiplier: larger factors, larger density *)
Monotone == \A j, k \in 1..Len(S.menu) : (\A e \in 1..N : S.menu[j][e][1] * S.menu[k][e][2] <= S.menu[k][e][1] * S.menu[j][e][2]) /\ Divides(S.menu[j]) /\ Divides(S.menu[k])
              => Vol(New(S.menu[j])) <= Vol(New(S.menu[k]))
=============================================================================
