------------------------------- MODULE VecEnum -------------------------------
(* Every reachable pool of NS small vectors of at most ML elements and every *)
(* call on it; each step is printed to be replayed on the real code.         *)
EXTENDS PapVec, TLC, Json
CONSTANTS NS, ML, VALS
VARIABLE st
Lists == {<<>>, <<1>>, <<2, 1>>, <<1, 2, 2>>}
Slots == 1..NS
Calls(S) ==
    {<<o, a>> : o \in {"new", "del", "pop", "clear", "fit"}, a \in Slots}
    \cup {<<o, a, l>> : o \in {"newv", "newl", "asgv", "asgl", "app", "appl"}, a \in Slots, l \in Lists}
    \cup {<<o, a, b>> : o \in {"copy", "move", "cas", "mas", "swap", "asgo"}, a \in Slots, b \in Slots}
    \cup {<<o, a, x>> : o \in {"push", "emb"}, a \in Slots, x \in VALS}
    \cup {<<o, a, i>> : o \in {"pushs", "embs"}, a \in Slots, i \in 0..(ML - 1)}
    \cup {<<o, a, p, x>> : o \in {"ins", "emp"}, a \in Slots, p \in 0..ML, x \in VALS}
    \cup {<<"inss", a, p, i>> : a \in Slots, p \in 0..ML, i \in 0..(ML - 1)}
    \cup {<<"rs", a, n>> : a \in Slots, n \in 0..ML}
    \cup {<<"rsv", a, n, 2>> : a \in Slots, n \in 0..ML}
    \cup {<<"rss", a, n, i>> : a \in Slots, n \in 0..ML, i \in 0..(ML - 1)}
    \cup {<<"res", a, n>> : a \in Slots, n \in {0, 1, 2, 3, 5, 9}}
    \cup {<<"at", a, i>> : a \in Slots, i \in 0..ML}
View(S) == [i \in Slots |-> IF S[i].a = 1 THEN S[i].v ELSE <<-1>>]
Init == st = [i \in Slots |-> Dead]
Next == \E op \in Calls(st) :
          /\ Legal(st, op)
          /\ LET r == Do(st, op)
             IN /\ \A i \in Slots : Len(r.s[i].v) <= ML
                /\ PrintT("E" \o ToJson(<<View(st), op, [e |-> r.e, x |-> r.x], View(r.s)>>))
                /\ st' = r.s
Spec == Init /\ [][Next]_st
Inv == \A i \in Slots : st[i].a = 0 => st[i].v = <<>>
\* only the slots a call names change
Frame == [][\E op \in Calls(st) : Legal(st, op) /\ Do(st, op).s = st' /\ \A i \in Slots \ Touched(op) : st'[i] = st[i]]_st
=============================================================================
