-------------------------------- MODULE VLib --------------------------------
(* Shared arithmetic of the specification: integers, sequences, sums, exact    *)
(* numbers of Z[sqrt 3] (Gauss points), small determinants and Cramer's rule.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN Abs(a) ELSE GCD(b, a % b)
GCD0(a, b) == GCD(Abs(a), Abs(b))
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumFun(f, S) == FoldSet(LAMBDA x, acc : f[x] + acc, 0, S)
SumOver(F(_), lo, hi) == FoldLeft(LAMBDA a, b : a + b, 0, [i \in 1..(hi - lo + 1) |-> F(lo + i - 1)])
SortSet(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
RangeOf(f) == {f[x] : x \in DOMAIN f}
MapSeq(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]

(* --- exact numbers a + b*sqrt(3) as <<a, b>> --- *)
Z3(a) == <<a, 0>>
ZAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
ZSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
ZMul(x, y) == <<x[1] * y[1] + 3 * x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
ZScale(k, x) == <<k * x[1], k * x[2]>>
ZSumTo(F(_), lo, hi) == FoldLeft(ZAdd, <<0, 0>>, [i \in 1..(hi - lo + 1) |-> F(lo + i - 1)])
ZProdTo(F(_), lo, hi) == FoldLeft(ZMul, <<1, 0>>, [i \in 1..(hi - lo + 1) |-> F(lo + i - 1)])
ZSumSet(F(_), S) == FoldSet(LAMBDA x, acc : ZAdd(F(x), acc), <<0, 0>>, S)
SumOverSet(F(_), S) == FoldSet(LAMBDA x, acc : F(x) + acc, 0, S)

(* --- integer determinants (Laplace expansion; matrices are sequences of rows) --- *)
Minor(M, i, j) == [r \in 1..(Len(M) - 1) |->
                     LET row == M[IF r < i THEN r ELSE r + 1] IN
                     [c \in 1..(Len(M) - 1) |-> row[IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1
          ELSE IF Len(M) = 1 THEN M[1][1]
          ELSE IF Len(M) = 2 THEN M[1][1] * M[2][2] - M[1][2] * M[2][1]
          ELSE LET T(j) == IF M[1][j] = 0 THEN 0 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, 1, j))
               IN SumOver(T, 1, Len(M))
ReplaceCol(M, j, b) == [r \in 1..Len(M) |-> [c \in 1..Len(M) |-> IF c = j THEN b[r] ELSE M[r][c]]]
(* Solution of M x = b as numerators over the common denominator Det(M) *)
CramerNum(M, b) == [j \in 1..Len(M) |-> Det(ReplaceCol(M, j, b))]
Transpose(M) == [r \in 1..Len(M[1]) |-> [c \in 1..Len(M) |-> M[c][r]]]
MatVec(M, v) == [r \in 1..Len(M) |-> SumOver(LAMBDA c : M[r][c] * v[c], 1, Len(v))]
Dot(a, b) == SumOver(LAMBDA i : a[i] * b[i], 1, Len(a))

(* --- products beyond 32 bits: signed limb sequences in base 1000, lowest first --- *)
Limbs(a) == LET s == IF a < 0 THEN -1 ELSE 1  x == Abs(a) IN
            <<s * (x % 1000), s * ((x \div 1000) % 1000), s * ((x \div 1000000) % 1000), s * (x \div 1000000000)>>
LMul(a, b) == LET A == Limbs(a)  B == Limbs(b) IN
   [k \in 1..7 |-> SumOver(LAMBDA i : IF k - i + 1 < 1 \/ k - i + 1 > 4 THEN 0 ELSE A[i] * B[k - i + 1], 1, 4)]
LZero == [k \in 1..7 |-> 0]
LAdd(x, y) == [k \in 1..7 |-> x[k] + y[k]]
LSum(F(_), lo, hi) == FoldLeft(LAdd, LZero, [i \in 1..(hi - lo + 1) |-> F(lo + i - 1)])
(* normal form (balanced carries) so that two limb sequences can be compared *)
LNorm(x) == LET RECURSIVE g(_, _) g(k, c) == IF k > 7 THEN <<c>> ELSE LET v == x[k] + c IN <<v % 1000>> \o g(k + 1, (v - (v % 1000)) \div 1000) IN g(1, 0)
LEq(x, y) == LNorm(x) = LNorm(y)
=============================================================================
