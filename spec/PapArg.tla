------------------------------- MODULE PapArg -------------------------------
(* Argument values: a pool of slots.                                         *)
(*   slot == [a   |-> 1 if there is one,                                     *)
(*            k   |-> kind it was made of, v |-> which value (0: nothing),   *)
(*            own |-> 1/0: it owns what it shows; -1: not specified,         *)
(*            o   |-> separately stored object it owns (0: none),            *)
(*            d   |-> such objects of other slots that it refers to]         *)
(* Kinds: mono bool cp int uint ll ull flt dbl ld ptr; sv a text that is     *)
(* referred to, so a text of its own; soo a small user type (kept inside,    *)
(* every copy has its own), edge a user type that just may fit; big a large  *)
(* user type that is referred to, bigi one of its own (stored separately);   *)
(* thr/thri the same of a small type whose copying may fail; span an array;  *)
(* ti a type.                                                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Dead == [a |-> 0, k |-> "mono", v |-> 0, own |-> 1, o |-> 0, d |-> {}]
Mono == [Dead EXCEPT !.a = 1]
Start(NS) == [i \in 1..NS |-> Dead]

Strings == {"sv", "so"}
Owners == {"so", "bigi", "thri"}
Referrers == {"sv", "big", "thr"}
UserTypes == {"soo", "edge", "big", "bigi", "thr", "thri", "span", "ti"}

Objects(st) == {st[i].o : i \in 1..Len(st)} \ {0}
Fresh(st) == CHOOSE n \in 1..(2 * Len(st) + 2) : n \notin Objects(st) /\ \A m \in 1..(n - 1) : m \in Objects(st)

Made(st, k, v) == [a |-> 1, k |-> k, v |-> v,
                   own |-> IF k = "edge" THEN -1 ELSE IF k \in Referrers THEN 0 ELSE 1,
                   o |-> IF k \in Owners THEN Fresh(st) ELSE 0, d |-> {}]
\* a copy of one that owns a separately stored object refers to that object
Copied(x) == [x EXCEPT !.own = IF x.k \in Owners \cup Referrers THEN 0 ELSE x.own,
                       !.o = 0, !.d = x.d \cup ({x.o} \ {0})]
\* assigning a text may copy it or refer to it
Assigned(st, x) == IF x.k \in Strings THEN [Copied(x) EXCEPT !.own = -1, !.o = Fresh(st)] ELSE Copied(x)

Do(st, op) ==
    LET o == op[1]
        s == op[2]
        y == IF Len(op) = 3 THEN st[op[3]] ELSE Dead
    IN CASE o = "new" -> [st EXCEPT ![s] = Mono]
         [] o \in {"mk", "asg"} -> [st EXCEPT ![s] = Made(st, op[3], op[4])]
         [] o = "cp" -> [st EXCEPT ![s] = Copied(y)]
         [] o = "mv" -> [st EXCEPT ![s] = y, ![op[3]] = Mono]
         [] o = "cas" -> IF op[3] = s THEN st ELSE [st EXCEPT ![s] = Assigned(st, y)]
         [] o = "mas" -> IF op[3] = s THEN st ELSE [st EXCEPT ![s] = y, ![op[3]] = Mono]
         [] o = "swap" -> [st EXCEPT ![s] = y, ![op[3]] = st[s]]
         [] o = "del" -> [st EXCEPT ![s] = Dead]
         \* formatting; and making an argument of an object whose copying fails
         [] o \in {"fmt", "mkx"} -> st

\* nobody may refer to an object that is gone
Sound(st) == \A i \in 1..Len(st) : st[i].d \subseteq Objects(st)
\* a text of its own is stored inside: moving it somewhere else, nobody may refer to it
Still(st, s) == ~\E i \in 1..Len(st) : st[s].k \in Strings /\ st[s].o # 0 /\ st[s].o \in st[i].d
Legal(st, op) ==
    LET o == op[1]
        s == op[2]
    IN /\ IF o \in {"new", "mk", "cp", "mv", "mkx"} THEN st[s].a = 0 ELSE st[s].a = 1
       /\ o \in {"cp", "mv"} => op[3] # s
       /\ o \in {"cp", "mv", "cas", "mas", "swap"} => st[op[3]].a = 1
       /\ o \in {"mv", "mas", "swap"} => Still(st, op[3])
       /\ o = "swap" => Still(st, s)
       /\ Sound(Do(st, op))

\* every separately stored object has one owner
Inv(st) == /\ Sound(st)
           /\ \A i, j \in 1..Len(st) : (i # j /\ st[i].o # 0) => st[i].o # st[j].o
           /\ \A i \in 1..Len(st) : st[i].a = 0 => st[i] = Dead
           /\ \A i \in 1..Len(st) : st[i].own = 1 /\ st[i].k \in Owners => st[i].o # 0

----------------------------------------------------------------------------
\* What is seen
Alternative(k) == IF k \in Strings THEN "str" ELSE IF k \in UserTypes THEN "handle" ELSE k
\* the types a value is asked for: which succeed, which fail and how
Askable == <<"bool", "cp", "int", "uint", "ll", "ull", "flt", "dbl", "ld", "str", "ptr", "soo", "edge", "big", "thr", "span", "ti">>
TypeOf(k) == CASE k \in Strings -> "str" [] k = "bigi" -> "big" [] k = "thri" -> "thr" [] OTHER -> k
Ask(k, t) == IF TypeOf(k) = t THEN "o"
             ELSE IF k \in UserTypes /\ t \in UserTypes THEN "h" ELSE "v"
Asked(k) == [i \in 1..Len(Askable) |-> Ask(k, Askable[i])]
Formattable(k) == IF k = "mono" THEN 0 ELSE IF k = "ti" THEN -1 ELSE 1
\* which slot is the first to show the same separately stored object
Shows(x) == IF x.k \in {"bigi", "thri"} THEN x.d \cup ({x.o} \ {0}) ELSE {}
First(st, i) == IF Shows(st[i]) = {} THEN 0
                ELSE CHOOSE j \in 1..Len(st) : Shows(st[j]) = Shows(st[i]) /\ \A m \in 1..(j - 1) : Shows(st[m]) # Shows(st[i])
Obs(st, i) == LET x == st[i]
              IN IF x.a = 0 THEN [a |-> 0]
                 ELSE [a |-> 1, k |-> Alternative(x.k), v |-> x.v, own |-> x.own, g |-> Asked(x.k), f |-> Formattable(x.k), q |-> First(st, i)]
\* objects of the user types that exist besides the user's own
Live(st) == <<Cardinality({i \in 1..Len(st) : st[i].k = "soo"}),
              Cardinality({i \in 1..Len(st) : st[i].k = "bigi" /\ st[i].own = 1}),
              Cardinality({i \in 1..Len(st) : st[i].k = "thri" /\ st[i].own = 1})>>
Seen(st) == [s |-> [i \in 1..Len(st) |-> Obs(st, i)], l |-> Live(st)]
=============================================================================
