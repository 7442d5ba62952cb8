------------------------------- MODULE VarEnum ------------------------------
EXTENDS PapVar, TLC, Json
CONSTANTS DEEP
VARIABLE st
N(s, m, e) == [s |-> s, m |-> m, e |-> e]
V(k, n) == [k |-> k, n |-> n, t |-> <<>>, own |-> 1]
T(t, own) == [k |-> "t", n |-> Zero, t |-> t, own |-> own]
One == Pow2(0)
Z(k) == [i \in 1..k |-> 0]
Ones(k) == [i \in 1..k |-> 1]
Ints == {Zero, One, N(1, <<1>>, 1), N(0, <<1>>, 2), N(0, <<1>> \o Z(23) \o <<1>>, 25), N(0, Ones(63), 63), N(1, <<1>>, 64), N(0, <<1, 0, 0, 1, 0, 1, 1>>, 9)}
        \cup IF DEEP = 0 THEN {} ELSE {N(1, <<1>> \o Z(23) \o <<1>>, 25), N(0, Ones(25), 25), N(0, <<1>>, 32), N(0, Ones(8), 8), N(0, <<1>> \o Z(60) \o <<1>>, 62), N(1, <<1>>, 8), N(1, <<1, 0, 0, 0, 0, 0, 0, 1>>, 8)}
Floats == {Zero, One, N(0, <<1>>, 0), N(1, <<1>>, 0), N(0, <<1>> \o Z(22) \o <<1>>, 1), N(0, Ones(24), 0), N(0, <<1>>, -22), N(0, <<1>>, 25), N(0, <<1>>, 64), N(0, <<1>>, INF), N(1, <<1>>, INF)}
          \cup IF DEEP = 0 THEN {} ELSE {N(0, <<1>>, -148), N(0, <<1>>, -23), N(0, <<1>> \o Z(22) \o <<1>>, 25), N(0, Ones(24), 128), N(1, <<1, 1>>, 1), N(0, <<1, 1>>, 8), N(1, <<1>>, 1),
                                         N(0, <<1>> \o Z(23) \o <<1, 1>>, 1), N(0, <<1>> \o Z(22) \o <<1, 1>>, 1)} \* these two are rounded
Texts == {<<>>, <<0>>, <<0, 2>>, <<5>>, <<6>>}
Values == {V("b", Zero), V("b", One)} \cup {V("i", n) : n \in Ints} \cup {V("f", n) : n \in Floats} \cup {T(t, 0) : t \in Texts} \cup {T(<<0, 2>>, 1)}
Sl == 1..2
Kinds == {"b", "i", "f", "t"}
Calls == {<<"put", a, v>> : a \in Sl, v \in Values}
         \cup {<<"del", a>> : a \in Sl}
         \cup {<<o, a, b>> : o \in {"cpy", "cas", "mv", "mas", "swap", "cmp", "eq"}, a \in Sl, b \in Sl}
         \cup {<<"as", a, x>> : a \in Sl, x \in Targets}
         \cup {<<"get", a, x>> : a \in Sl, x \in Kinds}
         \cup {<<"eqe", a, 3 - a, x>> : a \in Sl, x \in {Zero, Pow2(-1), Pow2(0), Pow2(-22)}}
\* a value is put where there is none or over the first ones, so that there are not too many steps
Over(op) == op[1] = "put" => (st[op[2]].k = "n" \/ op[3] \in {V("b", One), V("i", One), V("f", One), T(<<0>>, 0), T(<<0, 2>>, 1)} \/ st[3 - op[2]].k = "n")
\* what is asked of one variable does not depend on the other
Alone(op) == op[1] \in {"as", "get"} => st[3 - op[2]].k \in {"n"}
Init == st = Start(2)
Next == \E op \in Calls :
          /\ Legal(st, op) /\ Over(op) /\ Alone(op)
          /\ LET r == Do(st, op)
             IN /\ PrintT("E" \o ToJson(<<st, op, <<r.e, [i \in Sl |-> Show(r.s[i])]>>, r.s>>))
                /\ st' = r.s
Spec == Init /\ [][Next]_st
EInv == Inv(st) /\ ((Known(st, 1) /\ Known(st, 2)) => (Consistent(st[1], st[2]) /\ \A v \in Values : Transitive(Store(v), st[1], st[2])))
=============================================================================
