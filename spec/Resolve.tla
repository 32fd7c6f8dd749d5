------------------------------ MODULE Resolve -------------------------------
(* C15: from an option record to a concrete method.  A configuration goes        *)
(* through detection (the class of the matrix), resolution of the forward and    *)
(* of the adjoint options, and ends in a method or a refusal.  Every user option  *)
(* other than the method name is opaque and must survive.                        *)
EXTENDS VLib, Json
CONSTANTS Emit
VARIABLES cfg, pc, fwd, adj
vars == <<cfg, pc, fwd, adj>>
Props == {"spd", "symmetric", "general"}
Views == {"FULL", "UPPER", "LOWER"}
Avails == {[gpu |-> FALSE, have |-> h \cup {"spsolve"}] : h \in SUBSET {"cholmod", "umfpack"}} \cup {[gpu |-> TRUE, have |-> h] : h \in SUBSET {"cudss"}}
Direct == {[fam |-> "direct", solver |-> s, lower |-> l, cview |-> c] : s \in {"auto", "cholmod", "umfpack", "spsolve", "cudss"}, l \in BOOLEAN, c \in {"FULL", "UPPER"}}
Krylov == {[fam |-> "krylov", solver |-> s, lower |-> FALSE, cview |-> "FULL"] : s \in {"auto", "cg", "bicgstab", "gmres"}}
Refused(why) == [ok |-> FALSE, method |-> "none", why |-> why, lower |-> FALSE, ctype |-> "keep", cview |-> "keep"]
Chosen(m, l, t, c) == [ok |-> TRUE, method |-> m, why |-> "", lower |-> l, ctype |-> t, cview |-> c]
Tri(v) == v # "FULL"
(* order of preference among what is installed; LU backends read whole matrices only *)
AutoDirect(p, v, a) ==
  LET order == IF p = "spd" THEN <<"cudss", "cholmod", "umfpack", "spsolve">> ELSE <<"cudss", "umfpack", "spsolve">>
      usable == SelectSeq(order, LAMBDA m : m \in a.have /\ ~(Tri(v) /\ m \in {"umfpack", "spsolve"}))
  IN IF Len(usable) = 0 THEN "none" ELSE usable[1]
Lower(o, p, v) == IF p # "spd" THEN o.lower ELSE v # "UPPER"
ResolveD(o, p, v, a) ==
  IF o.solver = "auto" THEN
     LET m == AutoDirect(p, v, a) IN
     IF m = "none" THEN Refused("backend")
     ELSE IF m = "cudss" THEN Chosen(m, o.lower, p, IF Tri(v) THEN v ELSE o.cview)
     ELSE Chosen(m, Lower(o, p, v), "keep", "keep")
  ELSE IF o.solver \notin a.have THEN Refused("backend")
  ELSE IF Tri(v) /\ o.solver \in {"umfpack", "spsolve"} THEN Refused("view")
  ELSE Chosen(o.solver, IF Tri(v) /\ o.solver = "cholmod" THEN v = "LOWER" ELSE o.lower, "keep", "keep")
ResolveK(o, p) == Chosen(IF o.solver # "auto" THEN o.solver ELSE CASE p = "spd" -> "cg" [] p = "symmetric" -> "bicgstab" [] OTHER -> "gmres", FALSE, "keep", "keep")
Res(o, p, v, a) == IF o.fam = "direct" THEN ResolveD(o, p, v, a) ELSE ResolveK(o, p)
None == [ok |-> FALSE, method |-> "", why |-> "", lower |-> FALSE, ctype |-> "keep", cview |-> "keep"]
Init == /\ cfg \in [o : Direct \cup Krylov, p : Props, v : Views, a : Avails]
        /\ (cfg.v # "FULL" => cfg.p # "general")          \* one stored triangle means symmetric
        /\ pc = "forward" /\ fwd = None /\ adj = None
Forward == /\ pc = "forward" /\ fwd' = Res(cfg.o, cfg.p, cfg.v, cfg.a) /\ pc' = "adjoint" /\ UNCHANGED <<cfg, adj>>
           /\ (Emit => PrintT("@@" \o ToJson([cfg |-> cfg, out |-> fwd'])))
(* the adjoint system has the same class and storage: the same rule applied to its own options (here: the same record resolved again) *)
Adjoint == pc = "adjoint" /\ fwd.ok /\ pc' = "done" /\ UNCHANGED <<cfg, fwd>>
           /\ adj' = Res([cfg.o EXCEPT !.solver = fwd.method, !.lower = fwd.lower], cfg.p, cfg.v, cfg.a)
Next == Forward \/ Adjoint
Spec == Init /\ [][Next]_vars
Sym == cfg.p # "general"
Admissible == fwd.ok =>
   /\ (fwd.method \in {"cholmod", "cg"} /\ cfg.o.solver = "auto" => cfg.p = "spd")
   /\ (fwd.method \in {"umfpack", "spsolve"} => ~Tri(cfg.v))
   /\ (fwd.method \in {"umfpack", "spsolve", "cholmod", "cudss"} => fwd.method \in cfg.a.have)
   /\ (fwd.method = "cholmod" /\ Tri(cfg.v) => fwd.lower = (cfg.v = "LOWER"))
   /\ (fwd.method = "cudss" /\ cfg.o.solver = "auto" => fwd.ctype = cfg.p)
ExplicitKept == (pc # "forward" /\ cfg.o.solver # "auto" /\ fwd.ok) => fwd.method = cfg.o.solver
(* something is always found for whole matrices on a CPU; resolving a resolved record changes nothing *)
Total == (pc # "forward" /\ cfg.o.solver = "auto" /\ cfg.v = "FULL" /\ ~cfg.a.gpu) => fwd.ok
Idempotent == pc = "done" => adj.ok /\ adj.method = fwd.method /\ adj.lower = fwd.lower
=============================================================================
