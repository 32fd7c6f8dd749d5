------------------------------- MODULE Params -------------------------------
(* C14: a parameter container through histories of replacements and tree         *)
(* transformations: every entry is the last value written to exactly that slot.  *)
EXTENDS VLib, Json
CONSTANTS MaxV, MaxS, MaxLen, Emit
VARIABLES vol, sur, log, hist, shape
vars == <<vol, sur, log, hist, shape>>
Init == /\ shape \in {<<v, s>> : v \in 0..MaxV, s \in UNION {[1..n -> 0..2] : n \in 0..MaxS}}
        /\ vol = [i \in 1..shape[1] |-> i] /\ sur = [i \in 1..Len(shape[2]) |-> [j \in 1..shape[2][i] |-> 10 * i + j]]
        /\ log = <<>> /\ hist = <<>>
New == 100 + Len(log)
Rec(op, i, j, x) == log' = Append(log, [op |-> op, i |-> i, j |-> j, x |-> x, vol |-> vol', sur |-> sur'])
RepV == \E i \in 1..Len(vol) : vol' = [vol EXCEPT ![i] = New] /\ UNCHANGED <<sur, shape>> /\ Rec("vol", i, 0, New) /\ hist' = Append(hist, <<0, i, New>>)
RepS == \E i \in 1..Len(sur) : \E j \in 1..Len(sur[i]) : sur' = [sur EXCEPT ![i][j] = New] /\ UNCHANGED <<vol, shape>> /\ Rec("sur", i, j, New) /\ hist' = Append(hist, <<i, j, New>>)
Tree == /\ vol' = [i \in DOMAIN vol |-> 2 * vol[i]] /\ sur' = [i \in DOMAIN sur |-> [j \in DOMAIN sur[i] |-> 2 * sur[i][j]]] /\ UNCHANGED shape
        /\ Rec("tree", 0, 0, 0) /\ hist' = Append(hist, <<-1, 0, 0>>)
Next == Len(log) < MaxLen /\ (RepV \/ RepS \/ Tree) /\ (Emit /\ Len(log) + 1 = MaxLen => PrintT("@@" \o ToJson([shape |-> shape, log |-> log'])))
Spec == Init /\ [][Next]_vars
Expect(i, j, v0) == LET RECURSIVE f(_, _) f(n, v) == IF n > Len(hist) THEN v ELSE f(n + 1, IF hist[n][1] = -1 THEN 2 * v ELSE IF hist[n][1] = i /\ hist[n][2] = j THEN hist[n][3] ELSE v) IN f(1, v0)
OnlyTheSlot == /\ \A i \in 1..Len(vol) : vol[i] = Expect(0, i, i)
               /\ \A i \in 1..Len(sur) : \A j \in 1..Len(sur[i]) : sur[i][j] = Expect(i, j, 10 * i + j)
               /\ Len(vol) = shape[1] /\ [i \in 1..Len(sur) |-> Len(sur[i])] = shape[2]
=============================================================================
