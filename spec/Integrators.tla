---------------------------- MODULE Integrators ----------------------------
(* C09: one explicit step of du/dt = f(u, v, t), dv/dt = g(u, v, t) in exact    *)
(* integers (dt even, result numerators over 6).                                *)
EXTENDS VLib, Json
CONSTANTS Us, TT, DTs, As, Bs, Emit
VARIABLES s, done
F(c, x, t) == <<c.a * x[1] + x[2] * (c.b + t), c.b * x[1] - c.a * t + x[1] * x[2]>>
(* x + k * y with integer k *)
AX(k, y, x) == <<x[1] + k * y[1], x[2] + k * y[2]>>
Euler(c, x, t, dt) == AX(dt, F(c, x, t), x)
RK2(c, x, t, dt) == AX(dt, F(c, AX(dt \div 2, F(c, x, t), x), t + dt \div 2), x)
RK4n(c, x, t, dt) == LET h == dt \div 2  k1 == F(c, x, t)  k2 == F(c, AX(h, k1, x), t + h)  k3 == F(c, AX(h, k2, x), t + h)  k4 == F(c, AX(dt, k3, x), t + dt) IN
   [i \in 1..2 |-> 6 * x[i] + dt * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i])]
Init == /\ s \in [u : Us, v : Us, t : TT, dt : DTs, a : As, b : Bs] /\ done = FALSE
X == <<s.u - 2, s.v - 2>>
C == [a |-> s.a - 1, b |-> s.b]
Finish == /\ ~done /\ done' = TRUE /\ UNCHANGED s
          /\ (Emit => PrintT("@@" \o ToJson([x |-> X, c |-> C, t |-> s.t, dt |-> s.dt, euler |-> Euler(C, X, s.t, s.dt), rk2 |-> RK2(C, X, s.t, s.dt), rk4 |-> RK4n(C, X, s.t, s.dt)])))
Next == Finish
Spec == Init /\ [][Next]_<<s, done>>
(* consistency: on an autonomous decoupled linear right-hand side u' = a u the schemes are the truncated exponential *)
Truncated == (C.b = 0 /\ s.t = 0 /\ X[2] = 0) => LET z == C.a * s.dt  a == C.a IN
   /\ Euler(C, X, 0, s.dt)[1] = X[1] * (1 + z)
Translation == \A k \in {0} : Euler(C, X, s.t, 0) = X /\ RK2(C, X, s.t, 0) = X /\ RK4n(C, X, s.t, 0) = <<6 * X[1], 6 * X[2]>>
=============================================================================
