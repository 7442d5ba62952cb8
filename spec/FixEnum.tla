------------------------------- MODULE FixEnum -------------------------------
(* Every reachable pool and every call on it (vectors and maps separately).  *)
EXTENDS PapFix, TLC, Json
CONSTANTS K, G, PART, VALS, KEYS
VARIABLE st
Sl == 1..2
Calls ==
    IF PART = "v" THEN
      {<<o, a>> : o \in {"new", "del", "pop", "clear"}, a \in Sl}
      \cup {<<o, a, b>> : o \in {"copy", "move"}, a \in Sl, b \in Sl}
      \cup {<<"newn", a, c, 2>> : a \in Sl, c \in 0..(K + 1)}
      \cup {<<o, a, x>> : o \in {"push", "emb"}, a \in Sl, x \in VALS}
      \cup {<<"pushs", a, i>> : a \in Sl, i \in 0..(K - 1)}
      \cup {<<o, a, p, x>> : o \in {"ins", "emp"}, a \in Sl, p \in 0..K, x \in VALS}
      \cup {<<"inss", a, p, i>> : a \in Sl, p \in 0..K, i \in 0..(K - 1)}
      \cup {<<"at", a, i>> : a \in Sl, i \in 0..K}
    ELSE
      {<<o, a>> : o \in {"mnew", "mdel"}, a \in Sl}
      \cup {<<o, a, b>> : o \in {"mcopy", "mmove"}, a \in Sl, b \in Sl}
      \cup {<<o, a, x, y>> : o \in {"ioa", "te"}, a \in Sl, x \in KEYS, y \in VALS}
      \cup {<<o, a, x>> : o \in {"find", "mat", "has", "lb"}, a \in Sl, x \in KEYS}
View(S) == [i \in Sl |-> LET x == IF PART = "v" THEN S.v[i] ELSE S.m[i] IN IF x.a = 0 THEN <<-1>> ELSE IF x.u = 1 THEN <<-2>> ELSE x.v]
Init == st = S0
Next == \E op \in Calls :
          /\ Legal(st, op, K)
          /\ LET r == Do(st, op, K, G)
             IN /\ PrintT("E" \o ToJson(<<View(st), op, [e |-> r.e, x |-> r.x], View(r.s)>>))
                /\ st' = r.s
Spec == Init /\ [][Next]_st
EInv == Inv(st, K, G)
=============================================================================
