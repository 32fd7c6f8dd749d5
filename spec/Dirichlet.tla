------------------------------ MODULE Dirichlet ------------------------------
(* C02.  Resolution of Dirichlet specifications and their enforcement.         *)
(* Resolution is a state machine: the resolver takes the variables in order    *)
(* and, per variable, the specifications in order; a degree of freedom that is *)
(* already constrained keeps its value.  Enforcement acts on the residual and  *)
(* on the stored tangent entries.                                              *)
EXTENDS VLib, Json
CONSTANTS ScenFile,   \* file with the models: variables, stored pattern, catalogue, given lists
          MaxLen,     \* lists of up to MaxLen catalogue entries are all explored
          Emit
File == JsonDeserialize(ScenFile)
Models == File.models

(* location predicates; x: coordinates, i: node index (0-based) *)
Hit(loc, x, i) ==
  CASE loc.kind = "plane" -> x[loc.ax + 1] = loc.v
    [] loc.kind = "half"  -> x[loc.ax + 1] >= loc.v
    [] loc.kind = "point" -> \A a \in 1..Len(x) : x[a] = loc.p[a]
    [] loc.kind = "idx"   -> i % loc.m = loc.r
    [] loc.kind = "all"   -> TRUE
    [] loc.kind = "none"  -> FALSE
Value(v, x) == v[1] + SumOver(LAMBDA a : v[a + 1] * x[a], 1, Len(x))
Offset(M, v) == SumOver(LAMBDA w : Len(M.vars[w].pts) * M.vars[w].vec, 1, v - 1)     \* 0-based dofs
NDof(M) == Offset(M, Len(M.vars) + 1)
Comps(M, sp, v) == IF sp.comp = -1 THEN 0..(M.vars[v].vec - 1)
                   ELSE IF sp.comp >= M.vars[v].vec THEN {} ELSE {sp.comp}
Applies(sp, v) == sp.var = -1 \/ sp.var = v - 1
(* dof -> value selected by one specification on one variable *)
Sel(M, sp, v) == IF ~Applies(sp, v) THEN <<>> ELSE
   LET V == M.vars[v]  o == Offset(M, v)
       N == {n \in 1..Len(V.pts) : Hit(sp.loc, V.pts[n], n - 1)}
   IN [d \in {o + (n - 1) * V.vec + c : n \in N, c \in Comps(M, sp, v)} |-> Value(sp.val, V.pts[((d - o) \div V.vec) + 1])]

VARIABLES mi, specs, v, k, bc, pc
vars == <<mi, specs, v, k, bc, pc>>
M == Models[mi]
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Init == /\ mi \in 1..Len(Models)
        /\ specs \in {M.lists[i] : i \in 1..Len(M.lists)} \cup
              (IF M.cat = <<>> THEN {} ELSE {[j \in DOMAIN q |-> M.cat[q[j]]] : q \in Seqs(1..Len(M.cat), MaxLen)})
        /\ v = 1 /\ k = 1 /\ bc = <<>> /\ pc = "resolve"
Take == /\ pc = "resolve" /\ v <= Len(M.vars)
        /\ IF k > Len(specs) THEN v' = v + 1 /\ k' = 1 /\ UNCHANGED bc
           ELSE k' = k + 1 /\ v' = v /\ bc' = bc @@ Sel(M, specs[k], v)     \* @@: earlier entries win
        /\ UNCHANGED <<mi, specs, pc>>

(* enforcement *)
Entry(i, j) == ((i * 31 + j * 17) % 89) + 1              \* the stored integer tangent used for the replay
ResIn(i) == ((i * 13) % 23) - 11
SolIn(i) == ((i * 7) % 19) - 9
NewVal(j) == ((j * 5) % 11) - 5
(* two dofs are coupled when they belong to a common cell *)
Ranges(MM) == [c \in 1..Len(MM.cellnodes) |-> UNION {{Offset(MM, w) + n * MM.vars[w].vec + x :
                    n \in RangeOf(MM.cellnodes[c][w]), x \in 0..(MM.vars[w].vec - 1)} : w \in 1..Len(MM.vars)}]
Pattern(MM) == UNION {{<<i, j>> : i \in S, j \in S} : S \in RangeOf(Ranges(MM))}
Row(b, sym, i, j) == LET C == DOMAIN b IN
    IF i \in C THEN (IF i = j THEN 1 ELSE 0) ELSE IF sym /\ j \in C THEN 0 ELSE Entry(i, j)
Residual(b, scale, i) == IF i \in DOMAIN b THEN SolIn(i) - b[i] * scale ELSE ResIn(i)

Out(b) == LET rows == SortSet(DOMAIN b)  n == NDof(M) IN
   [m |-> mi, specs |-> specs, rows |-> rows, vals |-> [i \in 1..Len(rows) |-> b[rows[i]]],
    new |-> [i \in 1..Len(rows) |-> NewVal(rows[i])],
    res |-> IF M.cat = <<>> \/ Len(specs) <= 1 THEN [s \in 1..3 |-> [i \in 1..n |-> Residual(b, s - 1, i - 1)]] ELSE <<>>,
    jac |-> IF M.cat = <<>> \/ Len(specs) <= 1 THEN
              [q \in {0, 1} |-> SetToSeq({<<p[1], p[2], Row(b, q = 1, p[1], p[2])>> : p \in Pattern(M)})] ELSE <<>>]
Finish == /\ pc = "resolve" /\ v > Len(M.vars) /\ pc' = "done"
          /\ (Emit => PrintT("@@" \o ToJson(Out(bc))))
          /\ UNCHANGED <<mi, specs, v, k, bc>>
Next == Take \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* --- properties --- *)
Table == TLCEval([s \in 1..Len(specs) |-> TLCEval([w \in 1..Len(M.vars) |-> TLCEval(Sel(M, specs[s], w))])])
Selecting(T, d) == {s \in 1..Len(specs) : \E w \in 1..Len(M.vars) : d \in DOMAIN T[s][w]}
ExactlyTheSelected == pc = "done" => LET T == Table IN DOMAIN bc = {d \in 0..(NDof(M) - 1) : Selecting(T, d) # {}}
FirstWins == pc = "done" => LET T == Table IN \A d \in DOMAIN bc : LET s == Min(Selecting(T, d)) IN
                \E w \in 1..Len(M.vars) : d \in DOMAIN T[s][w] /\ bc[d] = T[s][w][d]
NeverRevised == [][\A d \in DOMAIN bc : d \in DOMAIN bc' /\ bc'[d] = bc[d]]_vars
Terminates == <>(pc = "done")
=============================================================================
