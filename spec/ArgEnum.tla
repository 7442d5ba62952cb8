------------------------------ MODULE ArgEnum ------------------------------
EXTENDS PapArg, TLC, Json
CONSTANTS NS, KINDS, VALS
VARIABLE st
Sl == 1..NS
Calls == {<<o, s>> : o \in {"new", "del", "fmt", "mkx"}, s \in Sl}
         \cup {<<o, s, k, v>> : o \in {"mk", "asg"}, s \in Sl, k \in KINDS, v \in VALS}
         \cup {<<o, s, t>> : o \in {"cp", "mv", "cas", "mas", "swap"}, s \in Sl, t \in Sl}
Init == st = Start(NS)
Next == \E op \in Calls :
          /\ Legal(st, op)
          /\ LET d == Do(st, op)
             IN PrintT("E" \o ToJson(<<st, op, Seen(d), d>>)) /\ st' = d
Spec == Init /\ [][Next]_st
EInv == Inv(st)
\* an object is given up only with the slot that owned it
Kept == [][\A n \in Objects(st) : n \in Objects(st') \/ \E i \in Sl : st[i].o = n /\ st'[i].o # n]_st
=============================================================================
