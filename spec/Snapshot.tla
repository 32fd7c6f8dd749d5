------------------------------ MODULE Snapshot ------------------------------
(* C10: one snapshot file.  Element type -> cell type of the file; field layout *)
(* -> number of components; when is the request rejected.                       *)
EXTENDS VLib, Json
CONSTANTS Emit
VARIABLES s, done
Elems == {"TRI3", "TRI6", "QUAD4", "QUAD8", "QUAD9", "TET4", "TET10", "HEX8", "HEX20", "HEX27", "QUAD4@3", "TRI3@3", "none4@2", "none8@3", "none4@3", "none3@2"}
Cell(e) == CASE e \in {"TRI3", "TRI3@3", "none3@2"} -> "triangle" [] e = "TRI6" -> "triangle6" [] e \in {"QUAD4", "QUAD4@3", "none4@2"} -> "quad" [] e = "QUAD8" -> "quad8"
             [] e = "QUAD9" -> "quad9" [] e \in {"TET4", "none4@3"} -> "tetra" [] e = "TET10" -> "tetra10" [] e \in {"HEX8", "none8@3"} -> "hexahedron" [] e = "HEX20" -> "hexahedron20" [] e = "HEX27" -> "hexahedron27"
Shapes == {"s", "s1", "v2", "v3", "v6", "t3", "t2", "short", "long"}
Comps(f) == CASE f \in {"s", "s1"} -> 1 [] f = "v2" -> 2 [] f = "v3" -> 3 [] f = "v6" -> 6 [] f = "t3" -> 9 [] f = "t2" -> 4 [] OTHER -> 0
Bad(f) == f \in {"short", "long"}
Fields == {<<>>} \cup {<<f>> : f \in Shapes} \cup {<<f, g>> : f \in Shapes, g \in {"s", "v3", "t3"}}
Init == s \in [ele : Elems, pt : Fields, cell : Fields] /\ done = FALSE
Rejected == (\E i \in DOMAIN s.pt : Bad(s.pt[i])) \/ (\E i \in DOMAIN s.cell : Bad(s.cell[i])) \/ (s.pt = <<>> /\ s.cell = <<>>)
Finish == /\ ~done /\ done' = TRUE /\ UNCHANGED s
          /\ (Emit => PrintT("@@" \o ToJson([ele |-> s.ele, pt |-> s.pt, cell |-> s.cell, rejected |-> Rejected, type |-> Cell(s.ele),
                         pc |-> [i \in DOMAIN s.pt |-> Comps(s.pt[i])], cc |-> [i \in DOMAIN s.cell |-> Comps(s.cell[i])]])))
Spec == Init /\ [][Finish]_<<s, done>>
AcceptedHaveComponents == ~Rejected => (\A i \in DOMAIN s.pt : Comps(s.pt[i]) > 0) /\ (\A i \in DOMAIN s.cell : Comps(s.cell[i]) > 0)
=============================================================================
