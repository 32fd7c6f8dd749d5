----------------------------- MODULE MeshDivide -----------------------------
(* C12: what is asked for.  Boxes and rectangles: cells per direction; import:   *)
(* which blocks of a multi-block file form the mesh.                              *)
EXTENDS Elements, Json
CONSTANTS Ls, Hs, MaxBlocks, Emit
VARIABLES q, done
Div(l, h) == Max2(1, l \div h)
BTypes == {"line", "triangle", "quad", "triangle6", "tetra", "hexahedron", "tetra10", "vertex", "wedge", "quad8", "quad9", "hexahedron20", "hexahedron27"}
Sup(t) == t \notin {"line", "vertex", "wedge"}
BDim(t) == IF t \in {"triangle", "quad", "triangle6", "quad8", "quad9"} THEN 2 ELSE 3
Feax(t) == CASE t = "triangle" -> "TRI3" [] t = "quad" -> "QUAD4" [] t = "triangle6" -> "TRI6" [] t = "tetra" -> "TET4" [] t = "hexahedron" -> "HEX8" [] t = "tetra10" -> "TET10" [] t = "quad8" -> "QUAD8" [] t = "quad9" -> "QUAD9" [] t = "hexahedron20" -> "HEX20" [] t = "hexahedron27" -> "HEX27" [] OTHER -> ""
Blocks(t, bs) == SelectSeq([k \in 1..Len(bs) |-> k], LAMBDA k : bs[k] = t)
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == /\ done = FALSE
        /\ \/ q \in [op : {"box"}, lx : Ls, ly : Ls, lz : Ls, h : Hs]
           \/ q \in [op : {"import"}, bs : SeqsUpTo(BTypes, MaxBlocks), want : {"", "triangle", "tetra", "hexahedron", "quad", "tetra10", "quad8", "hexahedron20", "hexahedron27"}]
(* the mesh types an import may return: the requested one, or one of the highest dimension present *)
Allowed == LET S == {q.bs[k] : k \in {m \in 1..Len(q.bs) : Sup(q.bs[m])}} IN
   IF q.want # "" THEN S \cap {q.want} ELSE {t \in S : \A u \in S : BDim(u) <= BDim(t)}
Expect == IF q.op = "box" THEN [q |-> q, div |-> <<Div(q.lx, q.h), Div(q.ly, q.h), Div(q.lz, q.h)>>]
          ELSE [q |-> q, allowed |-> SetToSeq({[t |-> Feax(t), blocks |-> Blocks(t, q.bs)] : t \in Allowed})]
Finish == ~done /\ done' = TRUE /\ UNCHANGED q /\ (Emit => PrintT("@@" \o ToJson(Expect)))
Spec == Init /\ [][Finish]_<<q, done>>
(* nothing is lost: the blocks of the chosen type are all there, in order *)
NoBlockLost == q.op = "import" => \A t \in Allowed : Len(Blocks(t, q.bs)) = Cardinality({k \in 1..Len(q.bs) : q.bs[k] = t}) /\ Len(Blocks(t, q.bs)) > 0
CoversSize == q.op = "box" => Div(q.lx, q.h) * q.h <= Max2(q.lx, q.h) /\ (Div(q.lx, q.h) + 1) * q.h > q.lx
=============================================================================
