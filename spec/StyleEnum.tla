------------------------------ MODULE StyleEnum -----------------------------
(* Every style, every operand: two slots, the second one holds an operand.   *)
EXTENDS PapStyle, TLC, Json
CONSTANTS BITS, FS, GS
VARIABLES st, y
\* the operands: all with attributes from BITS, foreground from FS, ...
Operands == {[b |-> b, f |-> f, g |-> g] : b \in BITS, f \in FS, g \in GS}
Init == st \in [b : SUBSET (1..4), f : 0..8, g : 0..8] /\ y = Plain
Js(x) == <<[k \in 1..4 |-> IF k \in x.b THEN 1 ELSE 0], x.f, x.g>>
Next == \E z \in Operands :
          /\ CanCombine(st, z)
          /\ st' = Combine(st, z)
          /\ y' = Plain
          /\ PrintT("E" \o ToJson(<<Js(st), Js(z), <<Queries(Combine(st, z)), Codes(Combine(st, z)), Reset(Combine(st, z))>>, Js(Combine(st, z))>>))
Spec == Init /\ [][Next]_<<st, y>>
EInv == EachOnce(st) /\ OneReset(st) /\ \A z \in Operands : Commutes(st, z)
=============================================================================
