------------------------------ MODULE ViewEnum ------------------------------
EXTENDS PapView, TLC, Json
CONSTANTS L, K, Sym
VARIABLE st
Texts == UNION {[1..n -> Sym] : n \in 0..L}
Idx == 0..K
Neg == (0 - K)..K
Bounds == Neg \cup {NPOS}
Needles == {<<>>, <<6>>, <<7>>, <<2, 4>>, <<4, 6>>, <<0, 2, 4, 6>>}
Calls == {<<o, i>> : o \in {"rp", "rs", "off", "roff", "at", "rat"}, i \in Idx}
         \cup {<<o, i, j>> : o \in {"subx", "subs"}, i \in Idx, j \in {0, 1, 2, NPOS}}
         \cup {<<o, i, j>> : o \in {"sublx", "subls"}, i \in Neg, j \in Bounds}
         \cup {<<o, i, 1>> : o \in {"or", "ror"}, i \in Idx}
         \cup {<<o>> : o \in {"len", "size", "fwd", "bwd", "conv"}}
         \cup {<<"nth", i, j>> : i \in Idx, j \in Idx}
         \cup {<<"asg", i, j>> : i \in Idx, j \in Idx}
         \cup {<<o, x, p>> : o \in {"findc"}, x \in {0, 6, 7}, p \in 0..2}
         \cup {<<o, u, p>> : o \in {"find"}, u \in Needles, p \in 0..2}
         \cup {<<o, x>> : o \in {"hasc", "swc", "ewc"}, x \in {0, 4, 6, 7}}
         \cup {<<o, u>> : o \in {"has", "sw", "ew", "cmp"}, u \in Needles}
Legal(op) == op[1] = "asg" => (op[2] <= op[3] /\ op[3] <= Len(Win(st)))
Legal2(op) == op[1] = "nth" => (op[2] <= Len(Win(st)) /\ op[3] <= Len(Win(st)))
Blank == [t |-> <<>>, lo |-> 0, hi |-> 0]
Init == st = Blank
Show(op, a, b, c) == PrintT("E" \o ToJson(<<st, op, <<a.e, b.e, c.e, Win(c.s)>>, c.s>>))
Step(op) ==
    LET r(enc) == Do(st, op, enc)
    IN /\ Assert(\A enc \in 1..3 : r(enc).s = r(1).s /\ Sane(st, op, r(enc).e), <<st, op>>)
       /\ Assert(Size(Win(r(1).s), 1) <= Size(Win(st), 1) \/ op[1] = "set", <<"grown", st, op>>)
       /\ Show(op, r(1), r(2), r(3))
       /\ st' = r(1).s
Next == \/ st = Blank /\ \E u \in Texts : Step(<<"set", u>>)
        \/ \E op \in Calls : Legal(op) /\ Legal2(op) /\ Step(op)
Spec == Init /\ [][Next]_st
EInv == Inv(st)
=============================================================================
