------------------------------- MODULE StrEnum -------------------------------
EXTENDS PapStr, TLC, Json
CONSTANTS L, DEEP
VARIABLE st
Sl == 1..2
Buf == <<<<2, 6>>>>
Few == [str |-> {<<4>>}, it |-> {<<>>}, as |-> {<<0, 6>>}, agr |-> {<<0, 4>>}, ro |-> {<<6>>}, rd |-> {<<>>, <<4>>},
        rp |-> {0}, rpr |-> {0}, rpi |-> {4}]
All == [o \in DOMAIN Few |-> IF o \in {"rp", "rpr", "rpi"} THEN {0, 4} ELSE {<<>>, <<4>>, <<0, 6>>}]
Texts == IF DEEP = 1 THEN All ELSE Few
Sym == Texts
Calls == {<<"ext", 1>>}
         \cup {<<o, a>> : o \in {"new", "del", "own", "cs", "st", "clr", "mstr"}, a \in Sl}
         \cup {<<o, a, b>> : o \in {"cpy", "icpy", "mv", "ca", "ma", "sw", "cmp"}, a \in Sl, b \in Sl}
         \cup {<<"sub", a, b, 1, 1>> : a \in Sl, b \in Sl}
         \cup {<<o, a, 1, lo, 2>> : o \in {"vw", "av"}, a \in Sl, lo \in 0..1}
         \cup {<<o, a, 1, 0, 1>> : o \in {"ind", "ai"}, a \in Sl}
         \cup UNION {{<<o, a, t>> : a \in Sl, t \in Texts[o]} : o \in {"str", "it", "as", "agr", "ro", "rd"}}
         \cup {<<o, a, 2, 4>> : o \in {"rep", "ar"}, a \in Sl}
         \cup {<<o, a, 1, 0>> : o \in {"repc", "arc"}, a \in Sl}
         \cup {<<"pb", a, 4>> : a \in Sl}
         \cup {<<"pbc", a, 0>> : a \in Sl}
         \cup UNION {{<<o, a, i, x>> : a \in Sl, i \in 0..1, x \in Sym[o]} : o \in {"rp", "rpr", "rpi"}}
         \cup {<<"rpx", a, i, 1 - i>> : a \in Sl, i \in 0..1}
         \cup {<<"ais", a, 1, 2>> : a \in Sl}
Init == st = Start(2, Buf)
Next == \E op \in Calls :
          /\ Legal(st, op)
          /\ LET r == Do(st, op)
             IN /\ \A i \in Sl : Len(Text(r.s, i)) <= L
                /\ PrintT("E" \o ToJson(<<<<st.c, st.b>>, op, <<r.e, [i \in Sl |-> Text(r.s, i)]>>, <<r.s.c, r.s.b>>>>))
                /\ Assert(Others(st, op, r.s), <<"others", st, op>>)
                /\ st' = r.s
Spec == Init /\ [][Next]_st
EInv == Shape(st)
=============================================================================
