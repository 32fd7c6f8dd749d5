------------------------------ MODULE MatClass ------------------------------
(* C15: the class of a matrix.  General unless it equals its transpose; positive *)
(* definite only with a positive diagonal (the documented necessary test).       *)
(* Matrices may be block diagonal with blocks of very different scale: the class  *)
(* of the whole never hides the class of a block.                                 *)
EXTENDS VLib, Json
CONSTANTS Vals, ScenFile, Emit
VARIABLES i, m
Scens == JsonDeserialize(ScenFile)                 \* [blocks: <<matrix>>, scales: <<power of ten>>]
SymM(A) == \A r \in 1..Len(A) : \A c \in 1..Len(A) : A[r][c] = A[c][r]
PosDiag(A) == \A r \in 1..Len(A) : A[r][r] > 0
Lead(A, k) == [r \in 1..k |-> SubSeq(A[r], 1, k)]
PD(A) == SymM(A) /\ \A k \in 1..Len(A) : Det(Lead(A, k)) > 0
Class(B) == IF \E b \in 1..Len(B) : ~SymM(B[b]) THEN "general" ELSE IF \A b \in 1..Len(B) : PosDiag(B[b]) THEN "spd" ELSE "symmetric"
Two == {<<<<a, b>>, <<c, d>>>> : a \in Vals, b \in Vals, c \in Vals, d \in Vals}
Out(B, s) == PrintT("@@" \o ToJson([blocks |-> B, scales |-> s, cls |-> Class(B), pd |-> \A b \in 1..Len(B) : PD(B[b])]))
Init == i = 0 /\ m = <<>>
Small == i = 0 /\ \E A \in Two : m' = <<A>> /\ i' = -1 /\ (Emit => Out(m', <<0>>))
Scen == i >= 0 /\ i < Len(Scens) /\ i' = i + 1 /\ m' = Scens[i'].blocks /\ (Emit => Out(m', Scens[i'].scales))
Next == Small \/ Scen
Spec == Init /\ [][Next]_<<i, m>>
SafeClass == m # <<>> => /\ ((\A b \in 1..Len(m) : PD(m[b])) => Class(m) = "spd")
                         /\ (Class(m) # "general" => \A b \in 1..Len(m) : SymM(m[b]))
                         /\ (Class(m) = "spd" => \A b \in 1..Len(m) : \A r \in 1..Len(m[b]) : m[b][r][r] > 0)
=============================================================================
