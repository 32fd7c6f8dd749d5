-------------------------------- MODULE Launch ------------------------------
(* C26.  A cluster launch.  One launcher starts a worker per configured node    *)
(* and runs rank 0 itself; every process learns its rank, the number of         *)
(* processes, the rendezvous endpoint and the arguments from what the launcher  *)
(* hands over, joins, and takes part in Rounds gathers (a barrier each).  The   *)
(* launcher leaves with rank 0's status, after every worker has ended.          *)
(* Tr = <<>> explores every schedule; otherwise the recorded run Tr (a sequence *)
(* of events) is followed and must be a behaviour.                              *)
EXTENDS VLib, Json
CONSTANTS Nodes, Rounds, Code, TrFile
VARIABLES lp,      \* launcher: number of workers started, then "local", "reap", "out"
          pc,      \* per rank: "none", "up", "joined", "in" (inside a gather), "ended"
          rnd,     \* per rank: gathers finished
          got,     \* per rank: the values received
          hand,    \* per rank: what was handed over <<rank, n, endpoint, args>>
          k        \* position in the recorded run
vars == <<lp, pc, rnd, got, hand, k>>
Tr == IF TrFile = "" THEN <<>> ELSE JsonDeserialize(TrFile)
Free == Tr = <<>>
R == 0..Nodes
N == Nodes + 1
Val(r, i) == 100 * r + i
Given(r) == [rank |-> r, n |-> N, end |-> "cfg", args |-> "cfg"]
Ev(x) == IF Free THEN k' = k ELSE k <= Len(Tr) /\ k' = k + 1 /\ \A f \in DOMAIN x : f \in DOMAIN Tr[k] /\ Tr[k][f] = x[f]
Silent == k' = k
Init == lp = 0 /\ pc = [r \in R |-> "none"] /\ rnd = [r \in R |-> 0] /\ got = [r \in R |-> <<>>] /\ hand = [r \in R |-> {}] /\ k = 1
(* the launcher hands over first; the process reports when it is up, possibly much later *)
Spawn == /\ lp \in 0..(Nodes - 1) /\ lp' = lp + 1 /\ hand' = [hand EXCEPT ![lp + 1] = {Given(lp + 1)}] /\ Silent /\ UNCHANGED <<pc, rnd, got>>
Local == /\ lp = Nodes /\ lp' = Nodes + 1 /\ hand' = [hand EXCEPT ![0] = {Given(0)}] /\ Silent /\ UNCHANGED <<pc, rnd, got>>
Up(r) == /\ pc[r] = "none" /\ hand[r] # {} /\ pc' = [pc EXCEPT ![r] = "up"] /\ UNCHANGED <<lp, rnd, got, hand>>
         /\ LET h == CHOOSE h \in hand[r] : TRUE IN Ev([e |-> "up", r |-> r, rank |-> h.rank, n |-> h.n, end |-> h.end, args |-> h.args])
Join(r) == /\ pc[r] = "up" /\ \A q \in R : pc[q] # "none" /\ pc' = [pc EXCEPT ![r] = "joined"] /\ UNCHANGED <<lp, rnd, got, hand>>
           /\ Ev([e |-> "join", r |-> r, n |-> N, first |-> IF r = 0 THEN 1 ELSE 0])
Enter(r) == /\ pc[r] = "joined" /\ rnd[r] < Rounds /\ pc' = [pc EXCEPT ![r] = "in"] /\ UNCHANGED <<lp, rnd, got, hand>>
            /\ Ev([e |-> "enter", r |-> r, i |-> rnd[r] + 1])
Arrived(q, i) == rnd[q] >= i \/ (rnd[q] = i - 1 /\ pc[q] = "in")
Leave(r) == /\ pc[r] = "in" /\ LET i == rnd[r] + 1  v == [q \in 1..N |-> Val(q - 1, i)] IN
               /\ \A q \in R : Arrived(q, i)
               /\ rnd' = [rnd EXCEPT ![r] = i] /\ got' = [got EXCEPT ![r] = Append(@, v)]
               /\ Ev([e |-> "leave", r |-> r, i |-> i, v |-> v])
            /\ pc' = [pc EXCEPT ![r] = "joined"] /\ UNCHANGED <<lp, hand>>
End(r) == /\ pc[r] = "joined" /\ rnd[r] = Rounds /\ pc' = [pc EXCEPT ![r] = "ended"] /\ UNCHANGED <<lp, rnd, got, hand>> /\ Ev([e |-> "end", r |-> r])
Reap == /\ lp = Nodes + 1 /\ pc[0] = "ended" /\ lp' = Nodes + 2 /\ Silent /\ UNCHANGED <<pc, rnd, got, hand>>
Out == /\ lp = Nodes + 2 /\ \A r \in R : pc[r] = "ended" /\ lp' = Nodes + 3 /\ UNCHANGED <<pc, rnd, got, hand>> /\ Ev([e |-> "out", code |-> Code])
Next == Spawn \/ Local \/ Reap \/ Out \/ \E r \in R : Up(r) \/ Join(r) \/ Enter(r) \/ Leave(r) \/ End(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* --- properties --- *)
OneRankEach == \A a, b \in R : hand[a] # {} /\ hand[b] # {} => (a = b <=> (CHOOSE h \in hand[a] : TRUE).rank = (CHOOSE h \in hand[b] : TRUE).rank)
RanksCover == lp > Nodes => {(CHOOSE h \in hand[r] : TRUE).rank : r \in R} = 0..(N - 1)
SameRendezvous == \A a, b \in R : \A x \in hand[a], y \in hand[b] : x.end = y.end /\ x.n = y.n /\ x.args = y.args
Agree == \A a, b \in R : \A i \in 1..Min2(rnd[a], rnd[b]) : got[a][i] = got[b][i]
RankOrder == \A a \in R : \A i \in 1..rnd[a] : \A q \in R : got[a][i][q + 1] = Val(q, i)
Lockstep == \A a, b \in R : rnd[a] - rnd[b] \in {-1, 0, 1}
NoOrphan == lp = Nodes + 3 => \A r \in R : pc[r] = "ended"
Finishes == <>(lp = Nodes + 3)
(* a recorded run that is a behaviour is consumed to its end: TLC is asked to refute this *)
NotAccepted == Free \/ k <= Len(Tr)
=============================================================================
