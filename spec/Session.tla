------------------------------ MODULE Session ------------------------------
(* C06.  A session: problems shared by solvers, solvers called again and       *)
(* again.  The state holds everything the implementation keeps between calls:  *)
(* the factor caches of the direct methods (one per method, role and batching  *)
(* mode, shared by ALL solvers of the process), the flag of a problem that its *)
(* surface load does not contribute to the tangent, the released scratch maps. *)
(* The property: every call answers for exactly the data it was given.         *)
EXTENDS VLib, Json
CONSTANTS NP,          \* problems
          Follower,    \* set of problems whose load depends on the solution
          Methods, NV, \* parameter sets 1..NV; 0 stands for a sample with zero load
          MaxSolvers, Gap, Depth, Emit, Keep

Pat == <<<<1>>, <<2>>, <<1>>, <<3>>>>      \* sparsity pattern of problem p (problems 1 and 3 share theirs)
VARIABLES sol,     \* the solvers built: [p, m, b (which boundary set), lin, z]
          cache,   \* <<method, mode>> -> [pat, val] or none
          flag,    \* problem -> "unset" | "drop" | "keep"
          freed,   \* problems whose scratch was released
          out,     \* [asked, used] of the last call
          h        \* history (kept only for emission)
vars == <<sol, cache, flag, freed, out, h>>
Direct == {"umfpack", "cholmod"}         \* methods with a factor cache
Modes == {"one", "many"}
None == [pat |-> <<0>>, val |-> <<>>]
Log(e) == IF Keep THEN h' = Append(h, e) ELSE h' = h
More == Keep => Len(h) < Depth

Init == /\ sol = <<>> /\ cache = [k \in Direct \X Modes |-> None] /\ flag = [p \in 1..NP |-> "unset"]
        /\ freed = {} /\ out = [asked |-> <<>>, used |-> <<>>] /\ h = <<>>

(* probing a load at generic values decides the flag from the problem alone *)
Probe(p) == IF p \in Follower THEN "keep" ELSE "drop"
Build(p, m, b, lin, z) ==
   /\ More /\ Len(sol) < MaxSolvers /\ (Keep => Len(h) >= Gap * Len(sol))
   /\ (p = 4 => m \notin {"cholmod", "cg"})          \* problem 4 is unsymmetric
   /\ sol' = Append(sol, [p |-> p, m |-> m, b |-> b, lin |-> lin])
   /\ flag' = [flag EXCEPT ![p] = IF lin /\ m \in Direct \cup {"spsolve"} THEN Probe(p) ELSE @]
   /\ UNCHANGED <<cache, freed, out>>
   /\ Log([op |-> "build", p |-> p, m |-> m, b |-> b, lin |-> lin, z |-> z])
Free(p) == /\ More /\ p \notin freed /\ freed' = freed \cup {p} /\ UNCHANGED <<sol, cache, flag, out>> /\ Log([op |-> "free", p |-> p])

(* the matrix of a call: problem, parameters, boundary set, and whether the load's tangent is in it *)
Mat(s, v, fl) == <<sol[s].p, v, sol[s].b, sol[s].p \in Follower /\ fl # "drop">>
Truth(s, v) == <<sol[s].p, v, sol[s].b, sol[s].p \in Follower>>
(* the cache protocol: reuse the symbolic factor only for the same pattern, always refactor the values *)
UseCache(m, mode, pat, val) ==
   IF m \in Direct THEN cache' = [cache EXCEPT ![<<m, mode>>] = [pat |-> pat, val |-> val]] ELSE UNCHANGED cache
Used(m, mode) == cache'[<<m, mode>>].val
One(s, v, kind) ==
   /\ More /\ s \in 1..Len(sol)
   /\ LET q == sol[s]  A == Mat(s, v, flag[q.p]) IN
        /\ UseCache(q.m, "one", Pat[q.p], <<A>>)
        /\ out' = [asked |-> <<Truth(s, v)>>, used |-> IF q.m \in Direct THEN Used(q.m, "one") ELSE <<A>>]
   /\ UNCHANGED <<sol, flag, freed>> /\ Log([op |-> kind, s |-> s, v |-> v])
Many(s, vs) ==
   /\ More /\ s \in 1..Len(sol)
   /\ LET q == sol[s]  A == [i \in 1..Len(vs) |-> Mat(s, vs[i], flag[q.p])] IN
        /\ UseCache(q.m, "many", Pat[q.p] \o <<Len(vs)>>, A)
        /\ out' = [asked |-> [i \in 1..Len(vs) |-> Truth(s, vs[i])], used |-> IF q.m \in Direct THEN Used(q.m, "many") ELSE A]
   /\ UNCHANGED <<sol, flag, freed>> /\ Log([op |-> "many", s |-> s, vs |-> vs])
(* a call that fails inside the factorization (singular matrix): the cache may be left with anything of that pattern *)
Fail(s) == /\ More /\ s \in 1..Len(sol)
           /\ LET q == sol[s] IN UseCache(q.m, "one", Pat[q.p], <<>>)
           /\ out' = [asked |-> <<>>, used |-> <<>>] /\ UNCHANGED <<sol, flag, freed>> /\ Log([op |-> "fail", s |-> s])
Assemble(p, v) == /\ More /\ p \notin freed /\ out' = [asked |-> <<>>, used |-> <<>>] /\ UNCHANGED <<sol, cache, flag, freed>> /\ Log([op |-> "assemble", p |-> p, v |-> v])
Finish == /\ Keep /\ Len(h) = Depth /\ (Emit => PrintT("@@" \o ToJson(h))) /\ h' = Append(h, [op |-> "end"]) /\ UNCHANGED <<sol, cache, flag, freed, out>>
Batches == {<<1, 2>>, <<2, 1, 3>>, <<3>>}
Next == \/ \E p \in 1..NP, m \in Methods, b \in 1..2, lin \in BOOLEAN, z \in BOOLEAN : Build(p, m, b, lin, z)
        \/ \E p \in 1..NP : Free(p)
        \/ (\E s \in {Len(sol)} \ {0} : Assemble(sol[s].p, 1 + (Len(h) % NV)))
        \/ \E s \in 1..Len(sol), v \in 1..NV, k \in {"solve", "jit", "grad"} : One(s, v, k)
        \/ \E s \in 1..Len(sol), vs \in Batches : Many(s, vs)
        \/ \E s \in 1..Len(sol) : Fail(s)
        \/ Finish
Spec == Init /\ [][Next]_vars

(* --- properties --- *)
Memoryless == out.used = out.asked
FlagSound == \A p \in 1..NP : flag[p] = "drop" => p \notin Follower
=============================================================================
