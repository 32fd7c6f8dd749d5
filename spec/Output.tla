------------------------------- MODULE Output -------------------------------
(* C10.  A time-series writer: sessions (open .. close), frames that are        *)
(* accepted or rejected, what the files hold afterwards.  A frame is a set of   *)
(* field names (signature) with a validity flag; time stamps are the op index.  *)
EXTENDS VLib, Json
CONSTANTS MaxOps, MaxSessions, Emit
VARIABLES open,      \* a session is open
          sig,       \* signature of the session's first accepted frame, "" if none
          frames,    \* accepted frames of the session: <<op number, kind>>
          file,      \* what the files hold: frames of the last closed session; <<>> before
          ops, done, sessions
vars == <<open, sig, frames, file, ops, done, sessions>>
(* frame kinds: signature and whether the arrays are well formed *)
Kinds == {"A", "A2", "B", "E", "Abad", "Ashape", "Adup", "Bbad", "Awide"}
Sig(k) == CASE k \in {"A", "A2", "Abad", "Ashape", "Awide"} -> "pc" [] k \in {"B", "Bbad"} -> "pq" [] k = "E" -> "none" [] k = "Adup" -> "dup"
Valid(k) == k \in {"A", "A2", "B", "E"}
Init == open = FALSE /\ sig = "" /\ frames = <<>> /\ file = <<>> /\ ops = <<>> /\ done = FALSE /\ sessions = 0
Log(o, r) == ops' = Append(ops, <<o, r>>)
Open == /\ ~open /\ sessions < MaxSessions /\ open' = TRUE /\ sig' = "" /\ frames' = <<>> /\ sessions' = sessions + 1 /\ Log("open", "ok") /\ UNCHANGED <<file, done>>
Write(k) == LET ok == open /\ Valid(k) /\ (sig = "" \/ sig = Sig(k)) IN
   /\ Log(k, IF ~open THEN "closed" ELSE IF ok THEN "ok" ELSE "rejected")
   /\ frames' = IF ok THEN Append(frames, <<Len(ops) + 1, k>>) ELSE frames
   /\ sig' = IF ok THEN Sig(k) ELSE sig
   /\ UNCHANGED <<open, file, done, sessions>>
Close(how) == /\ open /\ open' = FALSE /\ file' = frames /\ Log(how, "ok") /\ UNCHANGED <<sig, frames, done, sessions>>
Act == /\ ~done /\ Len(ops) < MaxOps /\ (Open \/ (\E k \in Kinds : Write(k)) \/ Close("close") \/ Close("raise"))
End == /\ ~done /\ ~open /\ ops # <<>> /\ sessions > 0 /\ done' = TRUE
       /\ (Emit => PrintT("@@" \o ToJson([ops |-> ops, file |-> file]))) /\ UNCHANGED <<open, sig, frames, file, ops, sessions>>
Next == Act \/ End
Spec == Init /\ [][Next]_vars
(* --- properties --- *)
OneFramePerSuccess == open => Len(frames) = Cardinality({i \in 1..Len(ops) : ops[i][2] = "ok" /\ ops[i][1] \in Kinds /\ \A j \in i..Len(ops) : ops[j][1] # "open"})
InOrder == \A i \in 1..(Len(frames) - 1) : frames[i][1] < frames[i + 1][1]
SameSignature == \A i, j \in 1..Len(frames) : Sig(frames[i][2]) = Sig(frames[j][2])
RejectedLeavesNoTrace == [][\A k \in Kinds : (Len(ops') = Len(ops) + 1 /\ ops'[Len(ops')][2] = "rejected") => UNCHANGED <<frames, sig, file, open>>]_vars
ReopenIsFresh == [][(~open /\ open') => sig' = "" /\ frames' = <<>>]_vars
ValidFirstFrameAccepted == [][\A k \in Kinds : (open /\ sig = "" /\ Valid(k) /\ Len(ops') = Len(ops) + 1 /\ ops'[Len(ops')][1] = k) => ops'[Len(ops')][2] = "ok"]_vars
=============================================================================
