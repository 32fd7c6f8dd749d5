--------------------------------- MODULE Boot -------------------------------
(* C26.  What importing the package does to the process, and what the switches *)
(* do afterwards: precision, preallocation, compiler passes, rendezvous.        *)
EXTENDS VLib, Json
CONSTANTS CfgFile, MaxTog, Emit
VARIABLES env, x64, pre, flags, log, st
vars == <<env, x64, pre, flags, log, st>>
No == "unset"
C == JsonDeserialize(CfgFile)
Tog == {"x64", "pre"} \X {"t", "f"}
(* a setting is <<spelling, meaning>>; meaning "f"/"t"/unset *)
Init == /\ env \in [x64 : RangeOf(C.x64), pre : RangeOf(C.pre), xpre : RangeOf(C.xpre), fold : RangeOf(C.fold), flags : RangeOf(C.flags)]
        /\ x64 = "none" /\ pre = env.xpre[1] /\ flags = env.flags /\ log = <<>> /\ st = "new"
(* flags: sequence of [name, vals]; the pass list is the flag named "passes" *)
AddPass(fs) ==
  IF \E i \in DOMAIN fs : "constant_folding" \in RangeOf(fs[i].vals) THEN fs
  ELSE IF \E i \in DOMAIN fs : fs[i].name = "passes"
       THEN LET i == CHOOSE i \in DOMAIN fs : fs[i].name = "passes" IN [fs EXCEPT ![i].vals = Append(@, "constant_folding")]
       ELSE Append(fs, [name |-> "passes", vals |-> <<"constant_folding">>])
Import == /\ st = "new" /\ st' = "on"
          /\ x64' = IF env.x64[2] = "f" THEN "f" ELSE "t"
          /\ pre' = IF env.xpre[2] # No THEN env.xpre[2] ELSE IF env.pre[2] = "t" THEN "t" ELSE "f"
          /\ flags' = IF env.fold[2] = "t" THEN flags ELSE AddPass(flags)
          /\ log' = << [op |-> "import", x64 |-> x64', pre |-> pre'] >> /\ UNCHANGED env
Toggle == /\ st = "on" /\ Len(log) <= MaxTog
          /\ \E t \in Tog : /\ x64' = IF t[1] = "x64" THEN t[2] ELSE x64
                            /\ pre' = IF t[1] = "pre" THEN t[2] ELSE pre
                            /\ log' = Append(log, [op |-> t, x64 |-> x64', pre |-> pre'])
          /\ UNCHANGED <<env, flags, st>>
Stop == /\ st = "on" /\ Len(log) > MaxTog /\ st' = "off" /\ UNCHANGED <<env, x64, pre, flags, log>>
        /\ (Emit => PrintT("@@" \o ToJson([env |-> env, flags |-> flags, log |-> log])))
Next == Import \/ Toggle \/ Stop
Spec == Init /\ [][Next]_vars
DoubleByDefault == st # "new" /\ env.x64[2] = No /\ Len(log) = 1 => x64 = "t"
ExplicitWins == st # "new" /\ env.xpre[2] # No /\ Len(log) = 1 => pre = env.xpre[2]
NothingLost == \A i \in DOMAIN env.flags : \E j \in DOMAIN flags : flags[j].name = env.flags[i].name /\ RangeOf(env.flags[i].vals) \subseteq RangeOf(flags[j].vals)
NothingElse == \A j \in DOMAIN flags : \A v \in RangeOf(flags[j].vals) : v = "constant_folding" \/ \E i \in DOMAIN env.flags : v \in RangeOf(env.flags[i].vals)
OncePass == \A j \in DOMAIN flags : Cardinality({i \in DOMAIN flags[j].vals : flags[j].vals[i] = "constant_folding"}) <= 1
=============================================================================
