----------------------------- MODULE SparseDiff -----------------------------
(* C21: derivative matrices of polynomial maps through a colouring.  A map is a  *)
(* list of monomials (row, coefficient, variables with repetition); its global    *)
(* pattern is where a variable occurs in a row; a colouring groups columns that   *)
(* share no row (rows that share no column), one probe per colour, and every      *)
(* entry is read back from the probe of its colour.  Also: unions of patterns,    *)
(* transposes and Galerkin products, exactly.                                      *)
EXTENDS VLib, Json
CONSTANTS ScenFile, Dim, Emit
VARIABLES i, cols, pat, phase
vars == <<i, cols, pat, phase>>
Scens == JsonDeserialize(ScenFile)
ProdOf(x, vs) == FoldLeft(LAMBDA a, v : a * x[v], 1, vs)
Without(vs, S) == LET keep == SelectSeq([k \in 1..Len(vs) |-> k], LAMBDA k : k \notin S) IN [k \in 1..Len(keep) |-> vs[keep[k]]]
D1(t, x, j) == t.c * SumOverSet(LAMBDA k : ProdOf(x, Without(t.vs, {k})), {k \in 1..Len(t.vs) : t.vs[k] = j})
D2(t, x, p, q) == t.c * SumOverSet(LAMBDA kl : ProdOf(x, Without(t.vs, {kl[1], kl[2]})), {kl \in (1..Len(t.vs)) \X (1..Len(t.vs)) : kl[1] # kl[2] /\ t.vs[kl[1]] = p /\ t.vs[kl[2]] = q})
Terms(s, r) == SelectSeq(s.terms, LAMBDA t : t.r = r)
Val(s, x) == [r \in 1..s.m |-> SumSeq([k \in 1..Len(Terms(s, r)) |-> Terms(s, r)[k].c * ProdOf(x, Terms(s, r)[k].vs)])]
Jac(s, x) == [r \in 1..s.m |-> [j \in 1..s.n |-> SumSeq([k \in 1..Len(Terms(s, r)) |-> D1(Terms(s, r)[k], x, j)])]]
Hess(s, x) == [p \in 1..s.n |-> [q \in 1..s.n |-> SumSeq([k \in 1..Len(s.terms) |-> D2(s.terms[k], x, p, q)])]]       \* of the sum of all rows
Pat(s) == {<<r, j>> \in (1..s.m) \X (1..s.n) : \E k \in 1..Len(s.terms) : s.terms[k].r = r /\ j \in ToSet(s.terms[k].vs)}
HPat(s) == {<<p, q>> \in (1..s.n) \X (1..s.n) : \E k \in 1..Len(s.terms) : \E a, b \in 1..Len(s.terms[k].vs) : a # b /\ s.terms[k].vs[a] = p /\ s.terms[k].vs[b] = q}
(* ---- colouring ---- *)
Conflict(P, a, b) == a # b /\ \E r \in {e[1] : e \in P} : <<r, a>> \in P /\ <<r, b>> \in P
Proper(P, c) == \A a, b \in DOMAIN c : c[a] = c[b] => ~Conflict(P, a, b)
RECURSIVE Greedy(_, _, _)
Greedy(P, n, c) == IF Len(c) = n THEN c ELSE
   LET j == Len(c) + 1  bad == {c[a] : a \in {a \in 1..Len(c) : Conflict(P, a, j)}} IN Greedy(P, n, Append(c, Min((1..n) \ bad)))
Probe(J, c, k) == [r \in 1..Len(J) |-> SumOverSet(LAMBDA j : J[r][j], {j \in DOMAIN c : c[j] = k})]
Exact(P, J, c) == \A e \in P : Probe(J, c, c[e[2]])[e[1]] = J[e[1]][e[2]]
(* ---- records ---- *)
Sorted(P) == SetToSortSeq(P, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
FunRec(s) == [id |-> s.id, kind |-> "fun", pat |-> Sorted(Pat(s)), hpat |-> Sorted(HPat(s)), val |-> [k \in 1..Len(s.xs) |-> Val(s, s.xs[k])],
              jac |-> [k \in 1..Len(s.xs) |-> Jac(s, s.xs[k])], hess |-> [k \in 1..Len(s.xs) |-> Hess(s, s.xs[k])]]
FunOK(s) == \A k \in 1..Len(s.xs) : LET x == s.xs[k]  J == Jac(s, x)  H == Hess(s, x)  P == Pat(s)  c == Greedy(P, s.n, <<>>) IN
   /\ \A r \in 1..s.m : \A j \in 1..s.n : J[r][j] # 0 => <<r, j>> \in P
   /\ \A p \in 1..s.n : \A q \in 1..s.n : H[p][q] = H[q][p] /\ (H[p][q] # 0 => <<p, q>> \in HPat(s))
   /\ \A r \in 1..s.m : Dot(J[r], x) = SumSeq([t \in 1..Len(Terms(s, r)) |-> Len(Terms(s, r)[t].vs) * Terms(s, r)[t].c * ProdOf(x, Terms(s, r)[t].vs)])       \* Euler
   /\ Proper(P, c) /\ Exact(P, J, c)
EP(es) == {<<es[k][1], es[k][2]>> : k \in 1..Len(es)}
EVal(es, r, j) == SumSeq([k \in 1..Len(es) |-> IF es[k][1] = r /\ es[k][2] = j THEN es[k][3] ELSE 0])
MergeRec(s) == LET U == Sorted(EP(s.a) \cup EP(s.b)) IN [id |-> s.id, kind |-> "merge", pat |-> U, val |-> [k \in 1..Len(U) |-> EVal(s.a, U[k][1], U[k][2]) + EVal(s.b, U[k][1], U[k][2])]]
Dense(es, m, n) == [r \in 1..m |-> [j \in 1..n |-> EVal(es, r, j)]]
MatMul(A, B) == [r \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> SumOver(LAMBDA k : A[r][k] * B[k][j], 1, Len(B))]]
Galerkin(s) == LET P == Dense(s.p, s.n, s.nr)  K == Dense(s.k, s.n, s.n) IN MatMul(Transpose(P), MatMul(K, P))
GalPat(s) == {<<a, b>> \in (1..s.nr) \X (1..s.nr) : \E e \in EP(s.k) : <<e[1], a>> \in EP(s.p) /\ <<e[2], b>> \in EP(s.p)}
GalRec(s) == [id |-> s.id, kind |-> "galerkin", pat |-> Sorted(GalPat(s)), mat |-> Galerkin(s)]
GalOK(s) == LET G == Galerkin(s)  P == GalPat(s)  c == Greedy(P, s.nr, <<>>) IN (\A a, b \in 1..s.nr : G[a][b] # 0 => <<a, b>> \in P) /\ Proper(P, c) /\ Exact(P, G, c)
Rec(s) == CASE s.kind = "fun" -> FunRec(s) [] s.kind = "merge" -> MergeRec(s) [] OTHER -> GalRec(s)
OK(s) == CASE s.kind = "fun" -> FunOK(s) [] s.kind = "merge" -> TRUE [] OTHER -> GalOK(s)
(* ---- every pattern of a small square matrix, every colouring: proper ones (and only those) read every entry back ---- *)
Cells == (1..Dim) \X (1..Dim)
Weigh == [r \in 1..Dim |-> [j \in 1..Dim |-> IF <<r, j>> \in pat THEN Pow(2, Dim * (r - 1) + j) ELSE 0]]
Init == /\ phase \in {"small", "scen"} /\ i = 0 /\ cols = <<>>
        /\ pat \in (IF phase = "small" THEN SUBSET Cells ELSE {{}})
Colour == phase = "small" /\ Len(cols) < Dim /\ \E k \in 1..Dim : cols' = Append(cols, k) /\ UNCHANGED <<i, pat, phase>>
Scen == phase = "scen" /\ i < Len(Scens) /\ i' = i + 1 /\ UNCHANGED <<cols, pat, phase>> /\ (Emit => PrintT("@@" \o ToJson(Rec(Scens[i + 1]))))
Next == Colour \/ Scen
Spec == Init /\ [][Next]_vars
ProperIsExact == (phase = "small" /\ Len(cols) = Dim) => (Proper(pat, cols) <=> Exact(pat, Weigh, cols))
ScenariosOK == (phase = "scen" /\ i > 0) => OK(Scens[i])
=============================================================================
