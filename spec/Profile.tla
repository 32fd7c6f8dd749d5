-------------------------------- MODULE Profile -----------------------------
(* C27.  What the profiling tools may report.  Four machines, one per kind:     *)
(*  newton : iterate until the residual norm is below the tolerance or the      *)
(*           budget is spent; one norm and one time per iteration entered.      *)
(*  timed  : warmup calls, then timed calls; the last call's value is returned. *)
(*  nest   : nested timing scopes over a clock; each closes exactly once, also  *)
(*           when its body fails, and covers what ran inside it.                *)
(*  jaxpr  : a straight-line program and its operation counts.                  *)
(*  memory : arrays created, sharded and dropped on two devices.                *)
EXTENDS VLib, Json
CONSTANTS Kind, B1, B2, Emit
VARIABLES s, hist, clk, st
vars == <<s, hist, clk, st>>
Out(r) == Emit => PrintT("@@" \o ToJson(r))
(* --- newton: s = [small, max, k, norms, steps, conv]; iterate k is "below" from index small on --- *)
NInit == s \in [small : 0..B1, max : 0..B2, k : {0}, norms : {0}, steps : {0}, conv : {FALSE}]
NStep == /\ st = "run" /\ s.norms < s.max /\ ~s.conv
         /\ IF s.k >= s.small THEN s' = [s EXCEPT !.norms = @ + 1, !.conv = TRUE]
            ELSE s' = [s EXCEPT !.norms = @ + 1, !.k = @ + 1, !.steps = @ + 1]
         /\ UNCHANGED <<st, hist, clk>>
NStop == /\ st = "run" /\ (s.conv \/ s.norms = s.max) /\ st' = "done" /\ UNCHANGED <<s, hist, clk>> /\ Out([small |-> s.small, max |-> s.max, norms |-> s.norms, steps |-> s.steps, conv |-> s.conv])
NInv == Kind = "newton" => (/\ s.norms <= s.max /\ s.steps = s.k /\ s.norms = s.steps + (IF s.conv THEN 1 ELSE 0)
                            /\ (st = "done" => (s.conv <=> s.small < s.max)))
(* --- timed: s = [w, n, i]; hist = labels of the timed calls --- *)
TInit == s \in [w : 0..B1, n : 0..B2, i : {0}] /\ s.w + s.n > 0
TStep == /\ st = "run" /\ s.i < s.w + s.n /\ s' = [s EXCEPT !.i = @ + 1]
         /\ hist' = (IF s.i >= s.w THEN Append(hist, s.i - s.w) ELSE hist) /\ UNCHANGED <<st, clk>>
TStop == /\ st = "run" /\ s.i = s.w + s.n /\ st' = "done" /\ UNCHANGED <<s, hist, clk>> /\ Out([w |-> s.w, n |-> s.n, calls |-> s.i, labels |-> hist, indexed |-> s.n # 1])
TInv == Kind = "timed" => (Len(hist) <= s.n /\ \A j \in DOMAIN hist : hist[j] = j - 1)
(* --- nest: s = [stack : seq of <<id, start>>, recs : seq of <<id, len, failed>>, prog]; hist = program --- *)
Depth == Len(s.stack)
XInit == s = [stack |-> <<>>, recs |-> <<>>, next |-> 1]
XStep == /\ st = "run" /\ Len(hist) < B2
         /\ \/ /\ Depth < B1 /\ s' = [s EXCEPT !.stack = Append(@, <<s.next, clk>>), !.next = @ + 1] /\ hist' = Append(hist, "open") /\ clk' = clk
            \/ /\ Depth > 0 /\ hist[Len(hist)] # "work" /\ s' = s /\ hist' = Append(hist, "work") /\ clk' = clk + 1
            \/ /\ Depth > 0 /\ LET t == s.stack[Depth] IN s' = [s EXCEPT !.stack = SubSeq(@, 1, Depth - 1), !.recs = Append(@, <<t[1], clk - t[2], 0>>)]
               /\ hist' = Append(hist, "close") /\ clk' = clk
            \/ /\ Depth > 0 /\ s' = [s EXCEPT !.stack = <<>>, !.recs = @ \o [j \in 1..Depth |-> LET t == s.stack[Depth + 1 - j] IN <<t[1], clk - t[2], 1>>]]
               /\ hist' = Append(hist, "fail") /\ clk' = clk
         /\ UNCHANGED st
XStop == /\ st = "run" /\ Depth = 0 /\ Len(hist) > 0 /\ st' = "done" /\ UNCHANGED <<s, hist, clk>> /\ Out([prog |-> hist, recs |-> s.recs, clk |-> clk])
XInv == Kind = "nest" => (/\ \A a, b \in DOMAIN s.recs : a # b => s.recs[a][1] # s.recs[b][1]
                          /\ Len(s.recs) + Depth = s.next - 1 /\ \A a \in DOMAIN s.recs : s.recs[a][2] <= clk)
(* --- jaxpr: s = [ops, consts, args]; an op is <<name, captured constant size or 0>> --- *)
Ops == {<<"sin", 0>>, <<"neg", 0>>, <<"mul", 0>>, <<"add", 3>>, <<"mul", 5>>, <<"sub", 2>>}
JInit == s \in [ops : {<<>>}, args : 1..B1]
JStep == /\ st = "run" /\ Len(s.ops) < B2 /\ \E o \in Ops : s' = [s EXCEPT !.ops = Append(@, o)] /\ UNCHANGED <<hist, clk, st>>
Count(nm) == Cardinality({i \in DOMAIN s.ops : s.ops[i][1] = nm})
Consts == {o[2] : o \in {s.ops[i] : i \in DOMAIN s.ops}} \ {0}
JStop == /\ st = "run" /\ Len(s.ops) > 0 /\ st' = "done" /\ UNCHANGED <<s, hist, clk>>
         /\ Out([ops |-> s.ops, args |-> s.args, n |-> Len(s.ops), sin |-> Count("sin"), neg |-> Count("neg"), mul |-> Count("mul"), add |-> Count("add"), sub |-> Count("sub"),
                 consts |-> Cardinality(Consts), elems |-> SumOverSet(LAMBDA x : x, Consts)])
JInv == Kind = "jaxpr" => Count("sin") + Count("neg") + Count("mul") + Count("add") + Count("sub") = Len(s.ops)
(* --- memory: s = set of live <<id, where, size>>, where in {0, 1, 2 = both}; hist = program --- *)
Held(d) == {a \in s : a[2] = d \/ a[2] = 2}
Bytes(d) == SumOverSet(LAMBDA a : IF a[2] = 2 THEN 4 * a[3] ELSE 8 * a[3], Held(d))
Snap == [b |-> <<Cardinality(Held(0)), Cardinality(Held(1))>>, n |-> <<Bytes(0), Bytes(1)>>]
SnapP == [b |-> <<Cardinality(Held(0))', Cardinality(Held(1))'>>, n |-> <<Bytes(0)', Bytes(1)'>>]
MInit == s = {}
MStep == /\ st = "run" /\ Len(hist) < B2
         /\ \/ \E w \in 0..2, z \in {2, 6} : s' = s \cup {<<clk, w, z>>} /\ clk' = clk + 1 /\ hist' = Append(hist, [op |-> "new", id |-> clk, w |-> w, z |-> z, snap |-> SnapP])
            \/ \E a \in s : s' = s \ {a} /\ clk' = clk /\ hist' = Append(hist, [op |-> "del", id |-> a[1], w |-> a[2], z |-> a[3], snap |-> SnapP])
         /\ UNCHANGED st
MStop == /\ st = "run" /\ Len(hist) = B2 /\ st' = "done" /\ UNCHANGED <<s, hist, clk>> /\ Out([prog |-> hist])
MInv == Kind = "memory" => Bytes(0) + Bytes(1) = SumOverSet(LAMBDA a : 8 * a[3], s)
Init == /\ hist = <<>> /\ clk = 0 /\ st = "run"
        /\ CASE Kind = "newton" -> NInit [] Kind = "timed" -> TInit [] Kind = "nest" -> XInit [] Kind = "jaxpr" -> JInit [] Kind = "memory" -> MInit
Next == CASE Kind = "newton" -> NStep \/ NStop [] Kind = "timed" -> TStep \/ TStop [] Kind = "nest" -> XStep \/ XStop [] Kind = "jaxpr" -> JStep \/ JStop [] Kind = "memory" -> MStep \/ MStop
Spec == Init /\ [][Next]_vars
Inv == NInv /\ TInv /\ XInv /\ JInv /\ MInv
=============================================================================
