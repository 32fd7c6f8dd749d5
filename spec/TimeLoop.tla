------------------------------ MODULE TimeLoop ------------------------------
(* C09.  The time loop in integer ticks: from 0 to T with nominal step dt,     *)
(* optional adaptive proposals (clamped to [DMin, DMax], growth limited to     *)
(* G/2), history, log rows, saved frames and callbacks with their periods.     *)
EXTENDS VLib, Json
CONSTANTS Ts, Dts, Saves, Cbs, Props, DMin, DMax, G, Adapt, Emit
VARIABLES T, dt0, se, cb,          \* configuration
          t, dt, step, lens, noms, props, hist, log, saved, called, st
cfg == <<T, dt0, se, cb>>
vars == <<T, dt0, se, cb, t, dt, step, lens, noms, props, hist, log, saved, called, st>>
Init == /\ T \in Ts /\ dt0 \in Dts /\ se \in Saves /\ cb \in Cbs
        /\ t = 0 /\ dt = 2 * dt0 /\ step = 0 /\ lens = <<>> /\ noms = <<>> /\ props = <<>>
        /\ hist = << <<0, 0>> >> /\ log = <<>> /\ saved = << <<0, 0>> >> /\ called = <<>> /\ st = "run"
(* all times in half ticks so that growth by 3/2 stays integral for even steps *)
End == 2 * T
Clamp(p) == Max2(DMin, Min2(DMax, p))
Step == /\ st = "run" /\ t < End
        /\ LET len == Min2(dt, End - t)  n == step + 1  tt == t + len IN
           /\ step' = n /\ t' = tt /\ lens' = Append(lens, len) /\ noms' = Append(noms, dt)
           /\ hist' = Append(hist, <<n, tt>>) /\ log' = Append(log, <<n, tt>>)
           /\ saved' = IF n % se = 0 THEN Append(saved, <<n, tt>>) ELSE saved
           /\ called' = IF n % cb = 0 THEN Append(called, <<n, tt>>) ELSE called
        /\ IF Adapt THEN \E p \in Props : /\ props' = Append(props, p) /\ dt' = Min2(Clamp(p), (dt * G) \div 2)
           ELSE props' = props /\ dt' = dt
        /\ UNCHANGED <<T, dt0, se, cb, st>>
Stop == /\ st = "run" /\ t >= End /\ st' = "done"
        /\ saved' = IF step % se # 0 THEN Append(saved, <<step, t>>) ELSE saved
        /\ (Emit => PrintT("@@" \o ToJson([T |-> T, dt |-> dt0, se |-> se, cb |-> cb, props |-> props, lens |-> lens, hist |-> hist, log |-> log, saved |-> saved', called |-> called, dmin |-> DMin, dmax |-> DMax, g |-> G, adapt |-> Adapt])))
        /\ UNCHANGED <<T, dt0, se, cb, t, dt, step, lens, noms, props, hist, log, called>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* --- properties --- *)
LengthsSumToElapsed == SumSeq(lens) = t
NeverPastEnd == t <= End
PositiveSteps == \A i \in 1..Len(lens) : lens[i] > 0 /\ lens[i] <= noms[i] /\ (lens[i] < noms[i] => i = Len(lens) /\ t = End)
InBounds == Adapt => \A i \in 2..Len(noms) : noms[i] >= DMin /\ noms[i] <= DMax /\ 2 * noms[i] <= noms[i - 1] * G
HistoryIsEveryStep == [i \in 1..Len(hist) |-> hist[i][1]] = [i \in 1..(step + 1) |-> i - 1] /\ log = Tail(hist)
FinalTime == st = "done" => t = End /\ hist[Len(hist)] = <<step, End>>
Has(s, n) == \E i \in 1..Len(s) : s[i][1] = n
SavedExactly == st = "done" => /\ \A n \in 0..step : Has(saved, n) <=> (n % se = 0 \/ n = step)
                               /\ \A i \in 1..(Len(saved) - 1) : saved[i][1] < saved[i + 1][1]
CalledExactly == st = "done" => \A n \in 0..step : Has(called, n) <=> (n > 0 /\ n % cb = 0)
Terminates == <>(st = "done")
=============================================================================
