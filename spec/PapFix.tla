------------------------------- MODULE PapFix -------------------------------
(* Fixed vectors and fixed flat maps: a pool of slots of each; every public  *)
(* operation is a transition.  K |-> capacity, G |-> 1 if keys are kept in   *)
(* descending order.                                                         *)
(*   vector slot == [a |-> alive, v |-> content, u |-> 1 if moved from]      *)
(*   map slot    == [a |-> alive, v |-> <<key, value>> in order, u]          *)
(* The content of a moved-from object is not specified; it can be cleared    *)
(* (a vector) or destroyed.                                                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Dead == [a |-> 0, v |-> <<>>, u |-> 0]
S0 == [v |-> <<Dead, Dead>>, m |-> <<Dead, Dead>>]
InsAt(v, p, x) == SubSeq(v, 1, p) \o <<x>> \o SubSeq(v, p + 1, Len(v))

VOps == {"new", "newn", "copy", "move", "del", "push", "pushs", "emb", "ins", "emp", "inss", "pop", "clear", "at"}
MOps == {"mnew", "mcopy", "mmove", "mdel", "ioa", "te", "find", "mat", "has", "lb"}

Legal(st, op, K) ==
    LET o == op[1]
        a == op[2]
    IN IF o \in VOps
       THEN LET x == st.v[a]
                n == Len(x.v)
            IN CASE o \in {"new", "newn"} -> x.a = 0
                 [] o \in {"copy", "move"} -> x.a = 0 /\ op[3] # a /\ st.v[op[3]].a = 1 /\ st.v[op[3]].u = 0
                 [] o \in {"del", "clear"} -> x.a = 1
                 [] OTHER -> x.a = 1 /\ x.u = 0 /\
                     CASE o = "pop" -> n > 0
                       [] o = "pushs" -> op[3] < n
                       [] o \in {"ins", "emp"} -> op[3] <= n
                       [] o = "inss" -> op[3] <= n /\ op[4] < n
                       [] OTHER -> TRUE
       ELSE LET x == st.m[a]
            IN CASE o = "mnew" -> x.a = 0
                 [] o \in {"mcopy", "mmove"} -> x.a = 0 /\ op[3] # a /\ st.m[op[3]].a = 1 /\ st.m[op[3]].u = 0
                 [] o = "mdel" -> x.a = 1
                 [] OTHER -> x.a = 1 /\ x.u = 0

R(st, e, x) == [s |-> st, e |-> e, x |-> x]
PutV(st, a, v) == [st EXCEPT !.v[a] = [a |-> 1, v |-> v, u |-> 0]]
PutM(st, a, v) == [st EXCEPT !.m[a] = [a |-> 1, v |-> v, u |-> 0]]
Grow(st, a, K, v, x) == IF Len(v) > K THEN R(st, "length_error", 0) ELSE R(PutV(st, a, v), "", x)

Before(G, x, y) == IF G = 1 THEN x > y ELSE x < y
\* number of keys of m before k
Below(m, k, G) == Cardinality({i \in 1..Len(m) : Before(G, m[i][1], k)})
Has(m, k) == \E i \in 1..Len(m) : m[i][1] = k
At(m, k) == (CHOOSE i \in 1..Len(m) : m[i][1] = k)
Sorted(m, G) == \A i, j \in 1..Len(m) : i < j => Before(G, m[i][1], m[j][1])

Do(st, op, K, G) ==
    LET o == op[1]
        a == op[2]
        v == st.v[a].v
        m == st.m[a].v
        new == Before(G, 0, 0)
    IN CASE o = "new" -> R(PutV(st, a, <<>>), "", 0)
         [] o = "newn" -> Grow(st, a, K, [i \in 1..op[3] |-> op[4]], 0)
         [] o = "copy" -> R(PutV(st, a, st.v[op[3]].v), "", 0)
         [] o = "move" -> R([PutV(st, a, st.v[op[3]].v) EXCEPT !.v[op[3]] = [a |-> 1, v |-> <<>>, u |-> 1]], "", 0)
         [] o = "del" -> R([st EXCEPT !.v[a] = Dead], "", 0)
         [] o \in {"push", "emb"} -> Grow(st, a, K, Append(v, op[3]), op[3])
         [] o = "pushs" -> Grow(st, a, K, Append(v, v[op[3] + 1]), v[op[3] + 1])
         [] o \in {"ins", "emp"} -> Grow(st, a, K, InsAt(v, op[3], op[4]), op[3])
         [] o = "inss" -> Grow(st, a, K, InsAt(v, op[3], v[op[4] + 1]), op[3])
         [] o = "pop" -> R(PutV(st, a, SubSeq(v, 1, Len(v) - 1)), "", 0)
         [] o = "clear" -> R(PutV(st, a, <<>>), "", 0)
         [] o = "at" -> IF op[3] < Len(v) THEN R(st, "", v[op[3] + 1]) ELSE R(st, "out_of_range", 0)
         [] o = "mnew" -> R(PutM(st, a, <<>>), "", 0)
         [] o = "mcopy" -> R(PutM(st, a, st.m[op[3]].v), "", 0)
         [] o = "mmove" -> R([PutM(st, a, st.m[op[3]].v) EXCEPT !.m[op[3]] = [a |-> 1, v |-> <<>>, u |-> 1]], "", 0)
         [] o = "mdel" -> R([st EXCEPT !.m[a] = Dead], "", 0)
         \* insertions return <<position, inserted>>
         [] o \in {"ioa", "te"} ->
              LET p == Below(m, op[3], G)
              IN IF Has(m, op[3])
                 THEN R(IF o = "te" THEN st ELSE PutM(st, a, [m EXCEPT ![p + 1] = <<op[3], op[4]>>]), "", <<p, 0>>)
                 ELSE IF Len(m) = K THEN R(st, "length_error", 0)
                 ELSE R(PutM(st, a, InsAt(m, p, <<op[3], op[4]>>)), "", <<p, 1>>)
         [] o = "find" -> R(st, "", IF Has(m, op[3]) THEN At(m, op[3]) - 1 ELSE Len(m))
         [] o = "has" -> R(st, "", IF Has(m, op[3]) THEN 1 ELSE 0)
         [] o = "lb" -> R(st, "", Below(m, op[3], G))
         [] o = "mat" -> IF Has(m, op[3]) THEN R(st, "", m[At(m, op[3])][2]) ELSE R(st, "out_of_range", 0)

Inv(st, K, G) == /\ \A i \in 1..2 : Len(st.v[i].v) <= K /\ Len(st.m[i].v) <= K
                 /\ \A i \in 1..2 : Sorted(st.m[i].v, G)
=============================================================================
