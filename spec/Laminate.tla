------------------------------ MODULE Laminate ------------------------------
(* C08, second part: a periodic stack of equally thick isotropic layers.  For   *)
(* every unit macroscopic strain the exact cell solution has constant strain in *)
(* every layer; the homogenized stiffness is the average stress.  Fractions are *)
(* pairs <<num, den>>.                                                          *)
EXTENDS VLib, Json
CONSTANTS Dim, MaxLayers, Vals, Emit
VARIABLES layers, axis, done
vars == <<layers, axis, done>>
Norm(q) == LET g == GCD0(q[1], q[2]) IN IF q[1] = 0 THEN <<0, 1>> ELSE IF q[2] < 0 THEN <<-q[1] \div g, -q[2] \div g>> ELSE <<q[1] \div g, q[2] \div g>>
QI(a) == <<a, 1>>
QAdd(p, q) == Norm(<<p[1] * q[2] + q[1] * p[2], p[2] * q[2]>>)
QMul(p, q) == Norm(<<p[1] * q[1], p[2] * q[2]>>)
QInv(p) == Norm(<<p[2], p[1]>>)
QNeg(p) == <<-p[1], p[2]>>
QSub(p, q) == QAdd(p, QNeg(q))
QDiv(p, q) == QMul(p, QInv(q))
QLeq(p, q) == p[1] * q[2] <= q[1] * p[2]
QSum(s) == FoldLeft(QAdd, <<0, 1>>, s)
Mean(F(_)) == QDiv(QSum([i \in 1..Len(layers) |-> F(layers[i])]), QI(Len(layers)))

Ax == 1..Dim
(* Voigt pairs in the library's order: 11 22 33 23 13 12 / 11 22 12 *)
Voigt == IF Dim = 3 THEN << <<1, 1>>, <<2, 2>>, <<3, 3>>, <<2, 3>>, <<1, 3>>, <<1, 2>> >> ELSE << <<1, 1>>, <<2, 2>>, <<1, 2>> >>
NV == Len(Voigt)
Zero == [i \in Ax |-> [j \in Ax |-> <<0, 1>>]]
(* unit strain k: engineering shear one, i.e. one half in both places *)
Macro(k) == [i \in Ax |-> [j \in Ax |-> LET a == Voigt[k][1]  b == Voigt[k][2] IN
               IF a = b THEN (IF i = a /\ j = a THEN <<1, 1>> ELSE <<0, 1>>)
               ELSE IF {i, j} = {a, b} /\ i # j THEN <<1, 2>> ELSE <<0, 1>>]]
Lam(l) == QI(l[1])   Mu(l) == QI(l[2])   PW(l) == QI(l[1] + 2 * l[2])
Tr(e) == QSum([i \in 1..Dim |-> e[i][i]])
Stress(l, e) == [i \in Ax |-> [j \in Ax |-> QAdd(IF i = j THEN QMul(Lam(l), Tr(e)) ELSE <<0, 1>>, QMul(QI(2), QMul(Mu(l), e[i][j])))]]
(* macroscopic strain E, common traction on the layer planes: solved per layer *)
Lateral(E) == QSum([i \in 1..Dim |-> IF i = axis THEN <<0, 1>> ELSE E[i][i]])
TracN(E) == QDiv(QAdd(E[axis][axis], QMul(Lateral(E), Mean(LAMBDA l : QDiv(Lam(l), PW(l))))), Mean(LAMBDA l : QInv(PW(l))))
TracS(E, j) == QDiv(QMul(QI(2), E[axis][j]), Mean(LAMBDA l : QInv(Mu(l))))
LayerStrain(l, E) == [i \in Ax |-> [j \in Ax |->
    IF i = axis /\ j = axis THEN QDiv(QSub(TracN(E), QMul(Lam(l), Lateral(E))), PW(l))
    ELSE IF i = axis THEN QDiv(TracS(E, j), QMul(QI(2), Mu(l)))
    ELSE IF j = axis THEN QDiv(TracS(E, i), QMul(QI(2), Mu(l)))
    ELSE E[i][j]]]
MeanStress(k) == LET E == Macro(k)  S == [q \in 1..Len(layers) |-> Stress(layers[q], LayerStrain(layers[q], E))] IN
   [r \in 1..NV |-> QDiv(QSum([q \in 1..Len(layers) |-> S[q][Voigt[r][1]][Voigt[r][2]]]), QI(Len(layers)))]
(* the same layers' materials spread evenly under a uniform strain: the plain average of their stresses *)
Uniform(k) == [r \in 1..NV |-> QDiv(QSum([q \in 1..Len(layers) |-> Stress(layers[q], Macro(k))[Voigt[r][1]][Voigt[r][2]]]), QI(Len(layers)))]
Col == [k \in 1..NV |-> MeanStress(k)]         \* Col[k][r] = C[r][k]

Init == layers = <<>> /\ axis \in Ax /\ done = FALSE
AddLayer == /\ ~done /\ Len(layers) < MaxLayers /\ \E l \in Vals : layers' = Append(layers, <<l \div 10, l % 10>>)   \* coded 10 lambda + mu
            /\ UNCHANGED <<axis, done>>
Finish == /\ ~done /\ layers # <<>> /\ done' = TRUE
          /\ (Emit => PrintT("@@" \o ToJson([dim |-> Dim, axis |-> axis, layers |-> layers, C |-> [r \in 1..NV |-> [k \in 1..NV |-> Col[k][r]]], U |-> [k \in 1..NV |-> Uniform(k)]])))
          /\ UNCHANGED <<layers, axis>>
Next == AddLayer \/ Finish
Spec == Init /\ [][Next]_vars
(* --- properties --- *)
SolvesTheCell == done => \A k \in 1..NV : LET E == Macro(k)  e == [q \in 1..Len(layers) |-> LayerStrain(layers[q], E)] IN
   /\ \A i, j \in Ax : QDiv(QSum([q \in 1..Len(layers) |-> e[q][i][j]]), QI(Len(layers))) = E[i][j]
   /\ \A q \in 1..Len(layers) : \A i \in Ax : Stress(layers[q], e[q])[axis][i] = Stress(layers[1], e[1])[axis][i]
Symmetric == done => LET C == Col IN \A k, r \in 1..NV : C[k][r] = C[r][k]
Bounds == done => LET C == Col IN
   /\ \A k \in 1..NV : Voigt[k][1] # Voigt[k][2] => /\ QLeq(QInv(Mean(LAMBDA l : QInv(Mu(l)))), C[k][k]) /\ QLeq(C[k][k], Mean(Mu))
   /\ \A k \in 1..NV : Voigt[k][1] = Voigt[k][2] => QLeq(C[k][k], Mean(PW))
=============================================================================
