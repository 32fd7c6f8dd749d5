------------------------------ MODULE BandLoop ------------------------------
(* C13: the moving-band loop on a structured grid.  The environment (solve and  *)
(* sensitivity) decides which of the active cells carry material next.          *)
EXTENDS VLib, Json
CONSTANTS Dx, Dy, Dz, ScenFile, NIter, MinCells, Gus, JitAfters, Margins, Emit
VARIABLES c, it, mat, active, built, jitOn, log
vars == <<c, it, mat, active, built, jitOn, log>>
Sc == JsonDeserialize(ScenFile)                 \* [menus, keep]
D == <<Dx, Dy, Dz>>
NCells == D[1] * D[2] * D[3]
All == 0..NCells - 1
P(e) == <<e \div (D[2] * D[3]), (e \div D[3]) % D[2], e % D[3]>>
Dist1(a, b) == Abs(P(a)[1] - P(b)[1]) + Abs(P(a)[2] - P(b)[2]) + Abs(P(a)[3] - P(b)[3])
Dil(S, m) == {e \in All : \E s \in S : Dist1(e, s) <= m}
Keep == ToSet(Sc.keep)
Init == /\ c \in [gus : Gus, ja : JitAfters, mg : Margins, seed : {0} \cup 1..Len(Sc.menus)]
        /\ mat = (IF c.seed = 0 THEN All ELSE ToSet(Sc.menus[c.seed])) /\ Cardinality(mat) >= MinCells
        /\ it = 0 /\ active = {} /\ built = {-1} /\ jitOn = FALSE /\ log = <<>>
Want == IF it < c.gus THEN All ELSE Dil(mat, c.mg) \cup Keep
UseJit == c.ja # 9 /\ it >= c.ja
Step == /\ it < NIter
        /\ active' = Want
        /\ IF Want # built \/ (UseJit /\ ~jitOn) THEN built' = Want /\ jitOn' = UseJit ELSE UNCHANGED <<built, jitOn>>
        /\ \E i \in 1..Len(Sc.menus) : LET S == ToSet(Sc.menus[i]) \cap Want IN
             /\ Cardinality(S) >= MinCells /\ mat' = S
             /\ log' = Append(log, [active |-> SortSet(Want), jit |-> UseJit, mat |-> SortSet(S)])
        /\ it' = it + 1 /\ UNCHANGED c
        /\ (Emit /\ it + 1 = NIter => PrintT("@@" \o ToJson([c |-> c, log |-> log'])))
Next == Step
Spec == Init /\ [][Next]_vars
SolveOnCurrentBand == it > 0 => built = active
JitAsScheduled == \A i \in 1..Len(log) : log[i].jit <=> (c.ja # 9 /\ i - 1 >= c.ja)
BandHoldsMaterial == [][it' > c.gus => mat \subseteq active' /\ Keep \subseteq active']_vars
=============================================================================
