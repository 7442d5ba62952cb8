------------------------------ MODULE FixTrace ------------------------------
(* Judges recorded histories of real fixed vectors and maps.                 *)
(* ob: e, x, v vector slots, m map slots, n live elements                    *)
EXTENDS PapFix, TLC, Json, IOUtils
VARIABLES k, i, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == k \in 1..Len(Trace) /\ i = 0 /\ st = S0

RECURSIVE Total(_)
Total(sl) == IF sl = <<>> THEN 0 ELSE Len(Head(sl).v) + Total(Tail(sl))
Same(x, y) == x.a = y.a /\ (x.u = 1 \/ x.v = y.v)
SameSlot(x, y) == x.a = y.a /\ x.v = y.v
\* what is known afterwards
Next_(d, ob, j, f) == IF f = "v" THEN [a |-> ob.v[j].a, v |-> ob.v[j].v, u |-> d.s.v[j].u]
                      ELSE [a |-> ob.m[j].a, v |-> ob.m[j].v, u |-> d.s.m[j].u]
Touched(op) == IF op[1] \in {"move", "mmove"} THEN {op[2], op[3]} ELSE {op[2]}
After(op, ob, K, G) ==
    LET d == IF ob.e \in {"thrown", "skip"} THEN [s |-> st] ELSE Do(st, op, K, G)
    IN [v |-> [j \in 1..2 |-> Next_(d, ob, j, "v")], m |-> [j \in 1..2 |-> Next_(d, ob, j, "m")]]
Explains(op, ob, K, G, dc) ==
    /\ dc = 1 => ob.n = Total(ob.v) + 2 * Total(ob.m)
    /\ \A j \in 1..2 : Len(ob.v[j].v) <= K /\ Len(ob.m[j].v) <= K
    /\ IF ob.e = "skip" THEN ~Legal(st, op, K)
       ELSE /\ Legal(st, op, K)
            /\ IF ob.e = "thrown" THEN \A j \in (1..2) \ Touched(op) : SameSlot(ob.v[j], st.v[j]) /\ SameSlot(ob.m[j], st.m[j])
               ELSE LET d == Do(st, op, K, G)
                    IN /\ ob.e = d.e
                       /\ ob.x = d.x
                       /\ \A j \in 1..2 : Same(d.s.v[j], ob.v[j]) /\ Same(d.s.m[j], ob.m[j])
\* after a failed call the content is what is seen; a map may have lost its order
Lost(op, ob) == ob.e = "thrown" /\ op[1] \in MOps
Done == i = Len(Trace[k].ops)
Step == /\ i >= 0 /\ ~Done
        /\ LET T == Trace[k]
               op == T.ops[i + 1]
               ob == T.r[i + 1]
           IN IF Explains(op, ob, T.K, T.G, T.dc)
              THEN st' = After(op, ob, T.K, T.G) /\ i' = IF Lost(op, ob) THEN Len(T.ops) ELSE i + 1
              ELSE PrintT(<<"V", k, 0, i + 1, op, st, {}>>) /\ i' = -1 /\ st' = st
        /\ k' = k
Accept == i >= 0 /\ Done /\ PrintT(<<"V", k, 1, {}>>) /\ i' = -1 /\ UNCHANGED <<k, st>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_<<k, i, st>>
=============================================================================
