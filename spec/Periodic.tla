------------------------------ MODULE Periodic ------------------------------
(* C08, first part: tying degrees of freedom.                                  *)
(*  Mode "list": a user adds pairings one by one on a line of NPts points; a    *)
(*  pairing ties every point p of an interval (master) to p + d (slave).  The   *)
(*  list is admissible when no point is a slave twice and no chain closes on    *)
(*  itself; then every point follows its chain to exactly one independent one.  *)
(*  Mode "cell": a box of Box[1] x Box[2] (x Box[3]) cells; the corner, edge    *)
(*  and face pairings of a unit cell, applied in any order, tie exactly the     *)
(*  nodes that differ by whole periods.                                         *)
EXTENDS VLib, Json
CONSTANTS Mode, NPts, Shifts, MaxLen, Sz, Emit
VARIABLES list, box, done
vars == <<list, box, done>>

(* ---------- pairings on a line ---------- *)
Pts == 0..(NPts - 1)
Ties(l) == UNION {{<<i, p, p + l[i].d>> : p \in l[i].lo..l[i].hi} : i \in 1..Len(l)}
SlaveTwice(l) == \E t, s \in Ties(l) : t # s /\ t[3] = s[3]
Masters(l, q) == {t[2] : t \in {t \in Ties(l) : t[3] = q}}
RECURSIVE Follow(_, _, _)
Follow(l, q, k) == IF Masters(l, q) = {} THEN q ELSE IF k = 0 THEN -1 ELSE Follow(l, CHOOSE m \in Masters(l, q) : TRUE, k - 1)
Circular(l) == \E q \in Pts : Follow(l, q, NPts) = -1
Ok(l) == ~SlaveTwice(l) /\ ~Circular(l)
Root(l) == [q \in 1..NPts |-> Follow(l, q - 1, NPts)]
(* ---------- the unit cell ---------- *)
Node(b) == IF Len(b) = 2 THEN {<<x, y>> : x \in 0..b[1], y \in 0..b[2]} ELSE {<<x, y, z>> : x \in 0..b[1], y \in 0..b[2], z \in 0..b[3]}
Rep(b, n) == [i \in 1..Len(b) |-> n[i] % b[i]]
OnLow(b, n) == {i \in 1..Len(b) : n[i] = 0}
OnHigh(b, n) == {i \in 1..Len(b) : n[i] = b[i]}
Hits(b, n) == Cardinality(OnLow(b, n) \cup OnHigh(b, n))
(* the pairing rule: entity (corner, edge interior, face interior) of the upper sides -> the same entity translated to the lower sides *)
IsSlave(b, n) == OnHigh(b, n) # {}
MasterOf(b, n) == [i \in 1..Len(b) |-> IF n[i] = b[i] THEN 0 ELSE n[i]]
NodeSeq(b) == IF Len(b) = 2 THEN [k \in 1..((b[1] + 1) * (b[2] + 1)) |-> <<(k - 1) \div (b[2] + 1), (k - 1) % (b[2] + 1)>>]
              ELSE [k \in 1..((b[1] + 1) * (b[2] + 1) * (b[3] + 1)) |-> <<(k - 1) \div ((b[2] + 1) * (b[3] + 1)), ((k - 1) \div (b[3] + 1)) % (b[2] + 1), (k - 1) % (b[3] + 1)>>]

Init == /\ list = <<>> /\ done = FALSE
        /\ IF Mode = "list" THEN box = <<>> ELSE box \in ((1..(Sz + 1)) \X (1..Sz)) \cup ((1..Sz) \X (1..Sz) \X (1..Sz))
AddPairing == /\ Mode = "list" /\ ~done /\ Len(list) < MaxLen
              /\ \E d \in {x - 10 : x \in Shifts}, lo, hi \in Pts :
                    /\ lo <= hi /\ \A p \in lo..hi : p + d \in Pts
                    /\ list' = Append(list, [lo |-> lo, hi |-> hi, d |-> d])
              /\ UNCHANGED <<box, done>>
Finish == /\ ~done /\ (Mode = "list" => list # <<>>) /\ done' = TRUE
          /\ (Emit => PrintT("@@" \o ToJson(IF Mode = "list" THEN [list |-> list, ok |-> Ok(list), root |-> IF Ok(list) THEN Root(list) ELSE <<>>]
                                            ELSE [box |-> box, nodes |-> NodeSeq(box), rep |-> [k \in DOMAIN NodeSeq(box) |-> Rep(box, NodeSeq(box)[k])]])))
          /\ UNCHANGED <<list, box>>
Next == AddPairing \/ Finish
Spec == Init /\ [][Next]_vars

(* ---------- properties ---------- *)
EveryDofHasOneIndependent == (done /\ Mode = "list" /\ Ok(list)) =>
   \A q \in Pts : LET r == Root(list)[q + 1] IN /\ r \in Pts /\ Masters(list, r) = {} /\ (Masters(list, q) = {} => r = q)
CountOfIndependent == (done /\ Mode = "list" /\ Ok(list)) => Cardinality(RangeOf(Root(list))) = NPts - Cardinality(Ties(list))
TiesAreRespected == (done /\ Mode = "list" /\ Ok(list)) => \A t \in Ties(list) : Root(list)[t[2] + 1] = Root(list)[t[3] + 1]
TwiceOrCircularRejected == (done /\ Mode = "list" /\ ~Ok(list)) => SlaveTwice(list) \/ Circular(list)
CellRuleIsCongruence == (Mode = "cell") => \A n \in Node(box) :
   /\ (IsSlave(box, n) <=> Rep(box, n) # n) /\ MasterOf(box, n) = Rep(box, n) /\ ~IsSlave(box, MasterOf(box, n))
   /\ Hits(box, MasterOf(box, n)) >= Hits(box, n)
CellEntitiesMatch == (Mode = "cell") => \A n \in Node(box) : \A i \in 1..Len(box) :
   (n[i] \in {0, box[i]}) <=> (MasterOf(box, n)[i] \in {0})
=============================================================================
