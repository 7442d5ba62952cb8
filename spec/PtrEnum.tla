------------------------------- MODULE PtrEnum -------------------------------
EXTENDS PapPtr, TLC, Json
CONSTANTS NS, M, Z, DELS
VARIABLE st
Sl == 1..NS
Calls == {<<o, a>> : o \in {"new", "null", "own", "ind", "view", "del", "r", "rn", "rno", "ro", "ri", "rv", "rel"}, a \in Sl}
         \cup {<<"gc", 1>>}
         \cup {<<o, a, b>> : o \in {"copy", "move", "cas", "mas", "swap"}, a \in Sl, b \in Sl}
         \cup {<<o, a, d>> : o \in {"up", "upn", "rup", "sd"}, a \in Sl, d \in DELS}
         \cup {<<"rupn", a>> : a \in Sl}
Init == st = Start(NS, M)
Next == \E op \in Calls :
          /\ Legal(st, op)
          /\ (op[1] = "sd" /\ Z = 1) => FALSE
          /\ LET r == Do(st, op, Z)
             IN /\ PrintT("E" \o ToJson(<<<<st.s, st.o>>, op, r.f, <<r.s.s, r.s.o>>>>))
                /\ st' = r.s
Spec == Init /\ [][Next]_st
EInv == Inv(st) /\ OwnInv(st)
\* every object that goes away was owned and is deleted by its owner, or was outside and swept
Once == [][\A i \in 1..M : st.o[i] = 1 /\ st'.o[i] = 0 =>
             \E op \in Calls : Legal(st, op) /\ Do(st, op, Z).s = st' /\ Cardinality({x \in Do(st, op, Z).f : x[1] = i}) = 1]_st
=============================================================================
