------------------------------ MODULE OptDriver ------------------------------
(* C11: the optimization driver as a state machine.  The optimizer itself is an  *)
(* environment: one call evaluates some designs (all of its budget, or fewer).   *)
(* Every evaluation sees the parameters, the mesh and the pins of its number.    *)
EXTENDS VLib, Json
CONSTANTS MaxIters, Inits, Finals, Everys, Steps, AdaptEverys, NAdapts, Early, Emit
VARIABLES c, it, par, mesh, mma, log, remeshes, early, pc
vars == <<c, it, par, mesh, mma, log, remeshes, early, pc>>
St(k) == c.step[k] - 2                                        \* signed step (configurations hold naturals)
Clamp(v, a, b) == Max2(Min2(a, b), Min2(v, Max2(a, b)))
ValueAt(k, i) == Clamp(c.init[k] + St(k) * (i \div c.every[k]), c.init[k], c.fin[k])
Pars(i) == <<ValueAt(1, i), ValueAt(2, i)>>
Init == /\ c \in [max : MaxIters, init : {<<a, b>> : a, b \in Inits}, fin : {<<a, b>> : a, b \in Finals}, every : {<<a, b>> : a, b \in Everys}, step : {<<a, b>> : a, b \in Steps},
                  ae : AdaptEverys, na : NAdapts]
        /\ it = 0 /\ par = <<0, 0>> /\ mesh = 0 /\ mma = <<>> /\ log = <<>> /\ remeshes = <<>> /\ early = 0 /\ pc = "top"
(* head of the loop: parameters of this phase; a fresh optimizer after a change or a remesh *)
Top == /\ pc = "top" /\ it < c.max
       /\ par' = Pars(it)
       /\ mma' = IF mma = <<>> THEN <<mesh, Pars(it)>> ELSE mma
       /\ pc' = "opt" /\ UNCHANGED <<c, it, mesh, log, remeshes, early>>
NextChange == LET f(k) == LET b == (it \div c.every[k] + 1) * c.every[k] IN IF b < c.max /\ ValueAt(k, it) # ValueAt(k, b) THEN b ELSE c.max IN Min2(f(1), f(2))
NextRemesh == IF c.ae > 0 /\ Len(remeshes) < c.na THEN (it \div c.ae + 1) * c.ae ELSE c.max
Budget == Min2(Min2(NextChange, NextRemesh), c.max) - it
Opt == /\ pc = "opt"
       /\ \E n \in 1..Budget : /\ (n < Budget => early < Early) /\ early' = IF n < Budget THEN early + 1 ELSE early
                               /\ log' = log \o [k \in 1..n |-> [p |-> par, m |-> mesh, pin |-> (Len(remeshes) = 0), mma |-> mma]] /\ it' = it + n
       /\ pc' = "after" /\ UNCHANGED <<c, par, mesh, mma, remeshes>>
After == /\ pc = "after"
         /\ LET re == c.ae > 0 /\ Len(remeshes) < c.na /\ it < c.max /\ it % c.ae = 0
                ch == it < c.max /\ Pars(it) # Pars(it - 1) IN
            /\ remeshes' = IF re THEN Append(remeshes, it) ELSE remeshes
            /\ mesh' = IF re THEN mesh + 1 ELSE mesh
            /\ mma' = IF re \/ ch THEN <<>> ELSE mma
         /\ pc' = IF it < c.max THEN "top" ELSE "done"
         /\ (Emit /\ it >= c.max => PrintT("@@" \o ToJson([c |-> [c EXCEPT !.step = <<St(1), St(2)>>], evals |-> [k \in 1..Len(log) |-> [p |-> log[k].p, m |-> log[k].m, pin |-> log[k].pin]],
                                                          remeshes |-> remeshes', final |-> [p |-> par, m |-> mesh']])))
         /\ UNCHANGED <<c, it, par, log, early>>
Stop == pc = "top" /\ it >= c.max /\ pc' = "done" /\ UNCHANGED <<c, it, par, mesh, mma, log, remeshes, early>>       \* an empty budget
Next == Top \/ Opt \/ After \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* ---- what a user relies on: everything is a function of the evaluation number ---- *)
ScheduledParameters == \A i \in 1..Len(log) : log[i].p = Pars(i - 1)
ScheduledMesh == \A i \in 1..Len(log) : log[i].m = (IF c.ae = 0 THEN 0 ELSE Min2(c.na, (i - 1) \div c.ae))
PinsOnlyOnInitialMesh == \A i \in 1..Len(log) : log[i].pin <=> log[i].m = 0
FreshOptimizer == \A i \in 1..Len(log) : log[i].mma = <<log[i].m, log[i].p>>
BudgetRespected == Len(log) = it /\ it <= c.max /\ (pc = "done" => it = c.max)
InRange == \A k \in 1..2 : \A i \in 0..c.max : ValueAt(k, i) \in Min2(c.init[k], c.fin[k])..Max2(c.init[k], c.fin[k])
NoRemeshAtEnd == \A k \in 1..Len(remeshes) : remeshes[k] < c.max /\ remeshes[k] = k * c.ae
Terminates == <>(pc = "done")
=============================================================================
