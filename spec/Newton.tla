------------------------------- MODULE Newton -------------------------------
(* C05.  The Newton loop with backtracking as a state machine over residual    *)
(* magnitudes.  The environment (the residual function) chooses what every     *)
(* trial point yields; the loop decides what to accept and when to stop.       *)
(* Residuals are integer vectors; NaN and overflow are separate outcomes.      *)
EXTENDS VLib, Json
CONSTANTS NComp,      \* number of free unknowns
          R0,         \* initial residual (per component)
          TSet,       \* magnitudes a trial may yield
          Tol2, RelNum, RelDen, MaxIter, MaxBt, Rho,   \* c1 = 1/4, alpha = Rho^-j
          Mode,       \* "armijo" (standard loop) or "simple" (any decrease: loops with an extra residual)
          MaxRej,     \* bound on the number of rejected trials explored in a behaviour
          Emit

VARIABLES it, j, r, hist, cur, status, rej
vars == <<it, j, r, hist, cur, status, rej>>
N2(x) == SumOver(LAMBDA i : x[i] * x[i], 1, Len(x))
Start == [i \in 1..NComp |-> R0]
AbsOK(x) == IF Mode = "armijo" THEN N2(x) <= Tol2 ELSE N2(x) < Tol2
RelOK(x) == IF Mode = "armijo" THEN N2(x) * RelDen * RelDen <= N2(Start) * RelNum * RelNum
            ELSE N2(x) * RelDen * RelDen < N2(Start) * RelNum * RelNum
Outcomes == {[k |-> "fin", v |-> x] : x \in [1..NComp -> TSet]} \cup {[k |-> "nan", v |-> Start], [k |-> "inf", v |-> Start]}

Init == it = 0 /\ j = 0 /\ r = Start /\ hist = <<>> /\ cur = <<>> /\ status = "run" /\ rej = 0
Stop(s) == status' = s /\ UNCHANGED <<it, j, r, hist, cur, rej>>
Decide == /\ status = "run" /\ j = 0
          /\ \/ AbsOK(r) /\ Stop("abs")
             \/ ~AbsOK(r) /\ RelOK(r) /\ Stop("rel")
             \/ ~AbsOK(r) /\ ~RelOK(r) /\ it >= MaxIter /\ Stop("budget")
             \/ ~AbsOK(r) /\ ~RelOK(r) /\ it < MaxIter /\ status' = "step" /\ UNCHANGED <<it, j, r, hist, cur, rej>>
(* sufficient decrease of half the squared norm with c1 = 1/4, alpha = Rho^-j *)
Enough(o) == o.k = "fin" /\ IF Mode = "armijo" THEN (N2(r) - N2(o.v)) * 2 * Pow(Rho, j) >= N2(r) ELSE N2(o.v) < N2(r)
Trial(o) == /\ status = "step" /\ j < MaxBt
            /\ IF Enough(o)
               THEN /\ it' = it + 1 /\ j' = 0 /\ r' = o.v /\ status' = "run"
                    /\ hist' = Append(hist, [t |-> Append(cur, o), j |-> j]) /\ cur' = <<>> /\ UNCHANGED rej
               ELSE /\ rej < MaxRej /\ rej' = rej + 1 /\ j' = j + 1 /\ cur' = Append(cur, o) /\ UNCHANGED <<it, r, hist, status>>
Fail == /\ status = "step" /\ j = MaxBt /\ status' = "lsfail"
        /\ hist' = Append(hist, [t |-> cur, j |-> -1]) /\ UNCHANGED <<it, j, r, cur, rej>>
Report == /\ status \in {"abs", "rel", "budget", "lsfail"} /\ status' = "end"
          /\ (Emit => PrintT("@@" \o ToJson([status |-> status, hist |-> hist, it |-> it])))
          /\ UNCHANGED <<it, j, r, hist, cur, rej>>
Next == Decide \/ (\E o \in Outcomes : Trial(o)) \/ Fail \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --- properties --- *)
Monotone == [][it' = it + 1 => N2(r') < N2(r)]_vars
NeverNonFinite == \A h \in RangeOf(hist) : h.j >= 0 => h.t[h.j + 1].k = "fin"
FirstAdmissible == \A h \in RangeOf(hist) : h.j >= 0 => Len(h.t) = h.j + 1
BudgetKept == it <= MaxIter
ReportedConvergedIs == (status = "abs" => AbsOK(r)) /\ (status = "rel" => RelOK(r))
(* no reason to stop is missed *)
StopsOnlyForAReason == status = "budget" => it = MaxIter
NoTies == (status = "step" /\ Mode = "armijo") => \A o \in Outcomes : o.k = "fin" => (N2(r) - N2(o.v)) * 2 * Pow(Rho, j) # N2(r)
NoTieConv == N2(r) # Tol2 /\ N2(r) * RelDen * RelDen # N2(Start) * RelNum * RelNum
Terminates == <>(status = "end" \/ (status = "step" /\ rej = MaxRej))
=============================================================================
