---------------------------- MODULE SolvePipeline ----------------------------
(* C03.  One linear solve as a pipeline: lift the guess, form the residual,    *)
(* eliminate the constrained rows (and columns), store a view of the matrix,   *)
(* hand it to a method that reads it in its own way, add the increment.  TLC   *)
(* checks on exact integer systems that every ADMISSIBLE combination yields    *)
(* the constrained solution, for every constrained set and every guess; the    *)
(* admissible combinations are then the configurations replayed in the code.   *)
EXTENDS VLib, Json
CONSTANTS Emit

Sys == << [cls |-> "spd", K |-> <<<<4, 1, -1>>, <<1, 3, 1>>, <<-1, 1, 5>>>>, f |-> <<1, 2, -3>>],
          [cls |-> "spd", K |-> <<<<2, -1, 0>>, <<-1, 2, -1>>, <<0, -1, 2>>>>, f |-> <<0, 1, 4>>],
          [cls |-> "sym", K |-> <<<<1, 2, 0>>, <<2, -1, 3>>, <<0, 3, 2>>>>, f |-> <<2, -1, 1>>],
          [cls |-> "gen", K |-> <<<<3, 1, 2>>, <<-1, 2, 1>>, <<1, -2, 4>>>>, f |-> <<1, 0, -2>>] >>
G == <<2, -1, 3>>
Guesses == [zero |-> <<0, 0, 0>>, any |-> <<1, 2, -2>>, lifted |-> <<0, 0, 0>>]
Methods == {"spsolve", "umfpack", "cholmod", "directauto", "cg", "bicgstab", "gmres", "krylovauto", "default"}

VARIABLES pc, cfg, u, J, stored, eff, res
vars == <<pc, cfg, u, J, stored, eff, res>>
N == 3
S0 == Sys[cfg.s]
Lift(x, B) == [i \in 1..N |-> IF i \in B THEN G[i] ELSE x[i]]
Init == /\ pc = "start" /\ u = <<>> /\ J = <<>> /\ stored = <<>> /\ eff = <<>> /\ res = <<>>
        /\ cfg \in [s : 1..Len(Sys), B : (SUBSET (1..N)) \ {1..N}, path : {"linear", "newton"}, method : Methods,
                    view : {"FULL", "UPPER", "LOWER"}, elim : BOOLEAN, guess : DOMAIN Guesses]

(* what each method can be trusted with *)
Symmetric(c) == Sys[c.s].cls # "gen"
Resolved(c) == LET spd == Sys[c.s].cls = "spd" /\ c.elim IN
   CASE c.method \in {"directauto", "default"} -> IF spd THEN "cholmod" ELSE "umfpack"
     [] c.method = "krylovauto" -> IF spd THEN "cg" ELSE IF Symmetric(c) /\ c.elim THEN "bicgstab" ELSE "gmres"
     [] OTHER -> c.method
Assembled(m) == m \in {"spsolve", "umfpack", "cholmod"}
Admissible(c) == LET m == Resolved(c) IN
   /\ (c.view # "FULL" => (Symmetric(c) /\ c.elim))                       \* a triangle stands for a symmetric matrix
   /\ (m \in {"cholmod", "cg"} => (Sys[c.s].cls = "spd" /\ c.elim))
   /\ (m \in {"spsolve", "umfpack"} => c.view = "FULL")
   /\ (c.path = "newton" /\ c.elim => c.guess = "lifted")                 \* Newton does not lift the guess

Begin == /\ pc = "start" /\ Admissible(cfg)
         /\ u' = LET x == Guesses[cfg.guess] IN IF cfg.path = "linear" \/ cfg.guess = "lifted" THEN Lift(x, cfg.B) ELSE x
         /\ pc' = "residual" /\ UNCHANGED <<cfg, J, stored, eff, res>>
Residual == /\ pc = "residual"
            /\ res' = [i \in 1..N |-> IF i \in cfg.B THEN u[i] - G[i] ELSE Dot(S0.K[i], u) - S0.f[i]]
            /\ pc' = "eliminate" /\ UNCHANGED <<cfg, u, J, stored, eff>>
Eliminate == /\ pc = "eliminate"
             /\ J' = [i \in 1..N |-> [j \in 1..N |-> IF i \in cfg.B THEN (IF i = j THEN 1 ELSE 0)
                                     ELSE IF cfg.elim /\ j \in cfg.B THEN 0 ELSE S0.K[i][j]]]
             /\ pc' = "store" /\ UNCHANGED <<cfg, u, stored, eff, res>>
Store == /\ pc = "store"
         /\ stored' = [i \in 1..N |-> [j \in 1..N |-> IF cfg.view = "UPPER" /\ i > j THEN 0
                                                       ELSE IF cfg.view = "LOWER" /\ i < j THEN 0 ELSE J[i][j]]]
         /\ pc' = "read" /\ UNCHANGED <<cfg, u, J, eff, res>>
(* LU reads the stored matrix; Cholesky one triangle of it; Krylov applies the operator *)
Read == /\ pc = "read"
        /\ eff' = LET m == Resolved(cfg) IN
                  IF m \in {"spsolve", "umfpack"} THEN stored
                  ELSE IF m = "cholmod" THEN [i \in 1..N |-> [j \in 1..N |->
                         IF cfg.view = "UPPER" THEN stored[Min2(i, j)][Max2(i, j)] ELSE stored[Max2(i, j)][Min2(i, j)]]]
                  ELSE J
        /\ pc' = "solve" /\ UNCHANGED <<cfg, u, J, stored, res>>
(* the increment over the common denominator Det(eff) *)
SolveStep == /\ pc = "solve"
             /\ u' = LET d == CramerNum(eff, [i \in 1..N |-> -res[i]])  D == Det(eff) IN [i \in 1..N |-> u[i] * D + d[i]]
             /\ pc' = "done" /\ (Emit => PrintT("@@" \o ToJson([cls |-> S0.cls, path |-> cfg.path, method |-> cfg.method,
                                     view |-> cfg.view, elim |-> cfg.elim, guess |-> cfg.guess, to |-> Resolved(cfg)])))
             /\ UNCHANGED <<cfg, J, stored, eff, res>>
Next == Begin \/ Residual \/ Eliminate \/ Store \/ Read \/ SolveStep
Spec == Init /\ [][Next]_vars

(* --- properties --- *)
WellPosed == pc = "solve" => Det(eff) # 0
PrescribedValues == pc = "done" => \A i \in cfg.B : u[i] = G[i] * Det(eff)
Equilibrium == pc = "done" => \A i \in (1..N) \ cfg.B : Dot(S0.K[i], u) = S0.f[i] * Det(eff)
MinorsPositive(Mx) == Mx[1][1] > 0 /\ Det(<<<<Mx[1][1], Mx[1][2]>>, <<Mx[2][1], Mx[2][2]>>>>) > 0 /\ Det(Mx) > 0
DefiniteWhereNeeded == (pc = "solve" /\ Resolved(cfg) \in {"cholmod", "cg"}) =>
     (\A i, j \in 1..N : eff[i][j] = eff[j][i]) /\ MinorsPositive(eff)
=============================================================================
