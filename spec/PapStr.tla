------------------------------- MODULE PapStr -------------------------------
(* Pools of Unicode string containers (copy on write) and of texts outside.  *)
(* A code point is a number 2k or 2k+1: two code points of the same length   *)
(* class k, in code point order.                                             *)
(*   b[i]  == what is in the outside text i                                  *)
(*   slot  == [a |-> alive, own |-> 1 owns its text, 0 refers to another,    *)
(*             -1 moved from, t |-> the text it owns,                        *)
(*             s |-> what it refers to: outside text i, the text of          *)
(*             container i (as -i), nothing (0); lo, hi |-> from where to    *)
(*             where]                                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Dead == [a |-> 0, own |-> 0, t |-> <<>>, s |-> 0, lo |-> 0, hi |-> 0]
Owner(t) == [a |-> 1, own |-> 1, t |-> t, s |-> 0, lo |-> 0, hi |-> 0]
View(s, lo, hi) == IF lo = hi THEN [a |-> 1, own |-> 0, t |-> <<>>, s |-> 0, lo |-> 0, hi |-> 0]
                   ELSE [a |-> 1, own |-> 0, t |-> <<>>, s |-> s, lo |-> lo, hi |-> hi]
Moved == [a |-> 1, own |-> -1, t |-> <<>>, s |-> 0, lo |-> 0, hi |-> 0]
Start(NS, B) == [c |-> [i \in 1..NS |-> Dead], b |-> B]

Text(st, i) ==
    LET x == st.c[i]
    IN IF x.own = 1 THEN x.t
       ELSE IF x.s = 0 THEN <<>>
       ELSE IF x.s > 0 THEN SubSeq(st.b[x.s], x.lo + 1, x.hi)
       ELSE SubSeq(st.c[0 - x.s].t, x.lo + 1, x.hi)

\* a container that another one refers to may not change, move or go away
Viewed(st, i) == \E j \in 1..Len(st.c) : st.c[j].a = 1 /\ st.c[j].own = 0 /\ st.c[j].s = 0 - i
\* the part from lo to hi of what i holds, without taking a copy
Part(st, i, lo, hi) == IF st.c[i].own = 1 THEN View(0 - i, lo, hi)
                       ELSE View(st.c[i].s, st.c[i].lo + lo, st.c[i].lo + hi)

Rep(n, x) == [i \in 1..n |-> x]
Min(x, y) == IF x < y THEN x ELSE y
RECURSIVE Cmp(_, _)
Cmp(s, t) == IF s = <<>> THEN IF t = <<>> THEN 0 ELSE -1
             ELSE IF t = <<>> THEN 1
             ELSE IF s[1] < t[1] THEN -1 ELSE IF s[1] > t[1] THEN 1
             ELSE Cmp(Tail(s), Tail(t))
Toggle(t) == [i \in 1..Len(t) |-> IF t[i] % 2 = 0 THEN t[i] + 1 ELSE t[i] - 1]

Makes == {"new", "vw", "ind", "str", "rep", "repc", "it", "cpy", "icpy", "mv", "sub"}
\* these give a new text whatever there was
Assigns == {"av", "ai", "as", "ar", "arc", "agr", "ca", "ma"}
Mutates == {"pb", "pbc", "clr", "mstr", "rp", "rpr", "rpi", "rpx", "ro", "rd", "ais"}
Looks == {"own", "cs", "st"}
Legal(st, op) ==
    LET o == op[1]
        a == op[2]
        x == st.c[a]
        good(i) == st.c[i].a = 1 /\ st.c[i].own # -1
        n == Len(Text(st, a))
        buf == o \in {"vw", "ind", "av", "ai"} => (op[4] <= op[5] /\ op[5] <= Len(st.b[op[3]]))
    IN CASE o = "ext" -> TRUE
         [] o \in Makes -> /\ x.a = 0 /\ buf
                           /\ o \in {"cpy", "icpy", "mv", "sub"} => (op[3] # a /\ good(op[3]))
                           /\ o = "sub" => op[4] <= Len(Text(st, op[3]))
                           /\ o = "mv" => ~Viewed(st, op[3])
         [] o \in Assigns -> /\ x.a = 1 /\ ~Viewed(st, a) /\ buf
                             /\ o = "ca" => good(op[3])
                             /\ o = "ma" => (op[3] # a /\ good(op[3]) /\ ~Viewed(st, op[3]))
         [] o = "del" -> x.a = 1 /\ ~Viewed(st, a)
         [] o \in Looks -> good(a)
         [] o = "cmp" -> good(a) /\ good(op[3])
         [] o = "sw" -> good(a) /\ good(op[3]) /\ ~Viewed(st, a) /\ ~Viewed(st, op[3])
         [] OTHER -> /\ good(a) /\ ~Viewed(st, a)
                     /\ o \in {"rp", "rpr", "rpi", "rpx"} => op[3] < n
                     /\ o = "rpx" => op[4] < n
                     /\ o = "ais" => (op[3] <= op[4] /\ op[4] <= n)

\* what a call gives back
R(st, e) == [s |-> st, e |-> e]
Set(st, a, x) == [st EXCEPT !.c[a] = x]
Do(st, op) ==
    LET o == op[1]
        a == op[2]
        x == st.c[a]
        t == Text(st, a)
        n == Len(t)
        put(y) == R(Set(st, a, y), <<>>)
        own(y) == put(Owner(y))
    IN CASE o = "ext" -> R([st EXCEPT !.b[a] = Toggle(@)], <<>>)
         [] o = "new" -> own(<<>>)
         [] o \in {"vw", "av"} -> put(View(op[3], op[4], op[5]))
         [] o \in {"ind", "ai"} -> own(SubSeq(st.b[op[3]], op[4] + 1, op[5]))
         [] o \in {"str", "it", "as", "agr", "ro"} -> own(op[3])
         [] o \in {"rep", "repc", "ar", "arc"} -> own(Rep(op[3], op[4]))
         [] o = "cpy" -> put(Part(st, op[3], 0, Len(Text(st, op[3]))))
         [] o = "sub" -> put(Part(st, op[3], op[4], Min(Len(Text(st, op[3])), op[4] + op[5])))
         [] o = "icpy" -> own(Text(st, op[3]))
         [] o \in {"mv", "ma"} -> R(Set(Set(st, a, st.c[op[3]]), op[3], Moved), <<>>)
         [] o = "ca" -> put(st.c[op[3]])
         [] o = "del" -> put(Dead)
         [] o \in Looks -> own(t)
         [] o = "cmp" -> R(st, <<Cmp(t, Text(st, op[3]))>>)
         [] o = "sw" -> R(Set(Set(st, a, st.c[op[3]]), op[3], x), <<>>)
         [] o \in {"pb", "pbc"} -> own(Append(t, op[3]))
         [] o = "clr" -> IF x.own = 1 THEN own(<<>>) ELSE put(View(0, 0, 0))
         [] o = "rd" -> IF op[3] # <<>> THEN own(op[3]) ELSE IF x.own = 1 THEN own(<<>>) ELSE put(View(0, 0, 0))
         [] o = "mstr" -> R(Set(st, a, Moved), t)
         [] o \in {"rp", "rpi"} -> own([t EXCEPT ![op[3] + 1] = op[4]])
         [] o = "rpr" -> own([t EXCEPT ![n - op[3]] = op[4]])
         [] o = "rpx" -> own([t EXCEPT ![op[3] + 1] = t[op[4] + 1]])
         [] o = "ais" -> own(SubSeq(t, op[3] + 1, op[4]))

Shape(st) == \A i \in 1..Len(st.c) :
    LET x == st.c[i]
    IN /\ x.own = 1 => x.a = 1 /\ x.s = 0
       /\ x.own # 1 => x.t = <<>>
       /\ x.s > 0 => x.lo < x.hi /\ x.hi <= Len(st.b[x.s])
       /\ x.s < 0 => st.c[0 - x.s].own = 1 /\ x.lo < x.hi /\ x.hi <= Len(st.c[0 - x.s].t)
\* a call changes no text but those of the containers it is made on
\* (the outside texts only change from outside)
Touched(op) == {op[2]} \cup IF op[1] \in {"mv", "ma", "sw"} THEN {op[3]} ELSE {}
Others(st, op, nx) ==
    op[1] # "ext" =>
      /\ nx.b = st.b
      /\ \A i \in (1..Len(st.c)) \ Touched(op) : nx.c[i] = st.c[i] /\ Text(nx, i) = Text(st, i)
=============================================================================
