------------------------------ MODULE ArgsEnum ------------------------------
EXTENDS PapArgs, TLC, Json
CONSTANTS NS, NN, MAXX, VALS, LISTS, DYN, ST, REF, MV
VARIABLE st
Items == (0..NN) \X VALS
Lists == UNION {[1..k -> Items] : k \in 1..LISTS}
\* the lists a static collection is made from: every pattern of positional and
\* named items, the arguments being numbered
RECURSIVE Pat(_)
Pat(k) == IF k = 0 THEN {<<>>} ELSE {Append(p, <<n, k>>) : p \in Pat(k - 1), n \in 0..NN}
Patterns == UNION {Pat(k) : k \in 0..LISTS}
Sl == 1..NS
Calls == {<<o, s>> : o \in {"new", "clr"}, s \in DYN}
         \cup {<<"del", s>> : s \in Sl}
         \cup {<<o, s, l>> : o \in {"newv", "app"}, s \in DYN, l \in Lists}
         \cup {<<"emp", s, it>> : s \in DYN, it \in Items}
         \cup {<<"st", s, l>> : s \in ST, l \in Patterns}
         \cup {<<o, s, t>> : o \in {"cp", "dmv", "smv"}, s \in MV, t \in MV}
         \cup {<<"ref", s, t, h>> : s \in REF, t \in Sl, h \in {0, 1}}
Init == st = Start(NS, NN)
Next == \E op \in Calls :
          /\ Legal(st, op)
          /\ LET d == Do(st, op, NN)
             IN /\ \A s \in Sl : Len(d[s].x) <= MAXX
                /\ PrintT("E" \o ToJson(<<st, op, Seen(d, NN), d>>))
                /\ st' = d
Spec == Init /\ [][Next]_st
EInv == Inv(st)
\* what was put there stays until it is cleared, moved away or destroyed
Kept == [][\A s \in Sl : (st[s].a = 1 /\ st'[s].a = 1 /\ st'[s].x # <<>>) =>
             /\ \A i \in 1..Len(st[s].x) : i <= Len(st'[s].x) => st'[s].x[i] = st[s].x[i]]_st
=============================================================================
