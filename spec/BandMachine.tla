----------------------------- MODULE BandMachine -----------------------------
(* C13: a sparse cell store and a superset band over one mesh, through histories *)
(* of writes, band policies and superset checks.                                 *)
EXTENDS VLib, Json
CONSTANTS ScenFile, MaxLen, Emit
VARIABLES m, store, active, sup, log, hist
vars == <<m, store, active, sup, log, hist>>
Ms == JsonDeserialize(ScenFile)                 \* [cells, menus, keep, margin, guard]
NC == Len(Ms[m].cells)
CellNodes(c) == ToSet(Ms[m].cells[c + 1])
All == 0..NC - 1
Ring(S) == {c \in All : \E s \in S : CellNodes(c) \cap CellNodes(s) # {}}
RECURSIVE Dil(_, _)
Dil(S, n) == IF n = 0 THEN S ELSE Dil(Ring(S), n - 1)
Val(c) == IF c \in DOMAIN store THEN store[c] ELSE 0
(* the same store read as a nodal field: a cell is seeded by any of its nodes *)
NodeBand(thr, mg, kp) == Dil({c \in All : \E n \in CellNodes(c) : n \in DOMAIN store /\ store[n] > thr}, mg) \cup (IF kp THEN ToSet(Ms[m].keep) ELSE {})
Needs(A) == sup = {-1} \/ ~(Dil(A, Ms[m].guard) \subseteq sup)
Init == /\ m \in 1..Len(Ms) /\ store = <<>> /\ active = {} /\ sup = {-1} /\ log = <<>> /\ hist = <<>>
Snap == [store |-> [i \in 1..Cardinality(DOMAIN store') |-> LET c == SortSet(DOMAIN store')[i] IN <<c, store'[c]>>], active |-> SortSet(active'), sup |-> SortSet(sup')]
Write == \E i \in 1..Len(Ms[m].menus) : \E v \in 0..3 :
            LET S == ToSet(Ms[m].menus[i]) IN
            /\ store' = [c \in DOMAIN store \cup S |-> IF c \in S THEN v ELSE store[c]]
            /\ hist' = Append(hist, <<S, v>>) /\ UNCHANGED <<m, active, sup>>
            /\ log' = Append(log, [op |-> "write", ids |-> Ms[m].menus[i], v |-> v, thr |-> 0, mg |-> 0, needs |-> FALSE] @@ Snap)
Policy == \E thr \in 0..2 : \E mg \in 0..1 : \E kp \in {TRUE, FALSE} :
            /\ active' = Dil({c \in DOMAIN store : store[c] > thr}, mg) \cup (IF kp THEN ToSet(Ms[m].keep) ELSE {})
            /\ UNCHANGED <<m, store, sup, hist>>
            /\ log' = Append(log, [op |-> IF kp THEN "policy-keep" ELSE "policy", ids |-> <<>>, v |-> 0, thr |-> thr, mg |-> mg, needs |-> FALSE, nb |-> SortSet(NodeBand(thr, mg, kp))] @@ Snap)
Check == /\ sup' = IF Needs(active) THEN Dil(active, Ms[m].margin) ELSE sup
         /\ UNCHANGED <<m, store, active, hist>>
         /\ log' = Append(log, [op |-> "check", ids |-> <<>>, v |-> 0, thr |-> 0, mg |-> 0, needs |-> Needs(active)] @@ Snap)
(* the band jumps to a given set of cells and the superset is consulted at once: bands that leave and return *)
Move == \E i \in 1..Len(Ms[m].menus) :
            LET A == ToSet(Ms[m].menus[i]) IN
            /\ A # {} /\ active' = A /\ sup' = (IF Needs(A) THEN Dil(A, Ms[m].margin) ELSE sup) /\ UNCHANGED <<m, store, hist>>
            /\ log' = Append(log, [op |-> "move", ids |-> Ms[m].menus[i], v |-> 0, thr |-> 0, mg |-> 0, needs |-> Needs(A)] @@ Snap)
Out == Len(log) = MaxLen /\ Emit /\ PrintT("@@" \o ToJson([m |-> m, log |-> log])) /\ UNCHANGED vars
Next == (Len(log) < MaxLen /\ (Write \/ Policy \/ Check \/ Move)) \/ Out
Spec == Init /\ [][Next]_vars
LastWrite == \A c \in All : LET W == {i \in 1..Len(hist) : c \in hist[i][1]} IN IF W = {} THEN c \notin DOMAIN store ELSE c \in DOMAIN store /\ store[c] = hist[Max(W)][2]
ActiveCovered == [][ (sup' # sup \/ (Len(log') > Len(log) /\ log'[Len(log')].op \in {"check", "move"})) => active' \subseteq sup' ]_vars
=============================================================================
