------------------------------ MODULE Elements ------------------------------
(* Reference elements: node positions on the doubled reference lattice, in the *)
(* library's (meshio) node order; corners; faces as sets of corner positions.   *)
EXTENDS VLib
Types == {"TRI3", "TRI6", "QUAD4", "QUAD8", "QUAD9", "TET4", "TET10", "HEX8", "HEX20"}
Dim(e) == IF e \in {"TRI3", "TRI6", "QUAD4", "QUAD8", "QUAD9"} THEN 2 ELSE 3
Simplex(e) == e \in {"TRI3", "TRI6", "TET4", "TET10"}
Tri3 == <<<<0,0>>, <<2,0>>, <<0,2>>>>
Quad4 == <<<<0,0>>, <<2,0>>, <<2,2>>, <<0,2>>>>
Tet4 == <<<<0,0,0>>, <<2,0,0>>, <<0,2,0>>, <<0,0,2>>>>
Hex8 == <<<<0,0,0>>, <<2,0,0>>, <<2,2,0>>, <<0,2,0>>, <<0,0,2>>, <<2,0,2>>, <<2,2,2>>, <<0,2,2>>>>
RefNodes(e) ==
   CASE e = "TRI3" -> Tri3
     [] e = "TRI6" -> Tri3 \o <<<<1,0>>, <<1,1>>, <<0,1>>>>
     [] e = "QUAD4" -> Quad4
     [] e = "QUAD8" -> Quad4 \o <<<<1,0>>, <<2,1>>, <<1,2>>, <<0,1>>>>
     [] e = "QUAD9" -> Quad4 \o <<<<1,0>>, <<2,1>>, <<1,2>>, <<0,1>>, <<1,1>>>>
     [] e = "TET4" -> Tet4
     [] e = "TET10" -> Tet4 \o <<<<1,0,0>>, <<1,1,0>>, <<0,1,0>>, <<0,0,1>>, <<1,0,1>>, <<0,1,1>>>>
     [] e = "HEX8" -> Hex8
     [] e = "HEX20" -> Hex8 \o <<<<1,0,0>>, <<2,1,0>>, <<1,2,0>>, <<0,1,0>>, <<1,0,2>>, <<2,1,2>>, <<1,2,2>>, <<0,1,2>>,
                                 <<0,0,1>>, <<2,0,1>>, <<2,2,1>>, <<0,2,1>>>>
NNodes(e) == Len(RefNodes(e))
NCorners(e) == CASE e \in {"TRI3", "TRI6"} -> 3 [] e \in {"QUAD4", "QUAD8", "QUAD9", "TET4", "TET10"} -> 4 [] OTHER -> 8
(* faces as sets of local corner numbers: a face is where one barycentric / box coordinate takes an extreme value *)
BoxFaces(e) == LET d == Dim(e)  R == RefNodes(e) IN
   {{i \in 1..NCorners(e) : R[i][a] = v} : a \in 1..d, v \in {0, 2}}
SimplexFaces(e) == LET n == NCorners(e) IN {(1..n) \ {i} : i \in 1..n}
Faces(e) == IF Simplex(e) THEN SimplexFaces(e) ELSE BoxFaces(e)
(* local number of the corner at 2*e_d (1-based d) and of the node at a reference position *)
NodeAt(e, r) == CHOOSE i \in 1..NNodes(e) : RefNodes(e)[i] = r
Unit(e, d) == [k \in 1..Dim(e) |-> IF k = d THEN 2 ELSE 0]
AxisCorner(e, d) == NodeAt(e, Unit(e, d))
Flip(r, d) == [k \in DOMAIN r |-> IF k = d THEN 2 - r[k] ELSE r[k]]
(* Jacobian determinant (scaled) at corner i of a cell with node positions X *)
VSub(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
CornerDet(e, X, i) ==
   IF Simplex(e) THEN Det([d \in 1..Dim(e) |-> VSub(X[AxisCorner(e, d)], X[1])])
   ELSE Det([d \in 1..Dim(e) |-> LET r == RefNodes(e)[i]  j == NodeAt(e, Flip(r, d)) IN
               IF r[d] = 0 THEN VSub(X[j], X[i]) ELSE VSub(X[i], X[j])])
(* every node where the affine map of the corners puts it *)
AffineNodes(e, X) == LET R == RefNodes(e) IN
   \A n \in 1..NNodes(e) : \A k \in 1..Dim(e) :
      2 * (X[n][k] - X[1][k]) = SumOver(LAMBDA d : R[n][d] * (X[AxisCorner(e, d)][k] - X[1][k]), 1, Dim(e))
=============================================================================
