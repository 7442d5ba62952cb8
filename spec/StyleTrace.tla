----------------------------- MODULE StyleTrace -----------------------------
(* Judges recorded histories of style values.                                *)
EXTENDS PapStyle, TLC, Json, IOUtils
VARIABLES k, i, p
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == 3
Init == k \in 1..Len(Trace) /\ i = 0 /\ p = [j \in 1..N |-> Plain]
Bits(m) == {b \in 1..4 : (m \div (2 ^ (b - 1))) % 2 = 1}
Explains(q, ob) ==
    \A j \in 1..N : /\ ob.s[j].q = Queries(q[j])
                    /\ ob.s[j].t = Codes(q[j]) /\ ob.s[j].r = Reset(q[j])
                    /\ ob.s[j].m = [m \in 1..15 |-> IF HasAny(q[j], Bits(m)) THEN 1 ELSE 0]
                    /\ ob.s[j].v = Enclose(q[j], <<32, 65>>) \o Enclose(q[j], <<48, 120, 102, 102>>)
Done == i = Len(Trace[k].ops)
Step == /\ i >= 0 /\ ~Done
        /\ LET T == Trace[k]
               op == T.ops[i + 1]
               ob == T.r[i + 1]
           IN IF ob.x = 1 /\ ~Legal(p, op) THEN i' = i + 1 /\ p' = p
              ELSE IF ob.x = 0 /\ Legal(p, op) /\ Explains(Do(p, op), ob) THEN i' = i + 1 /\ p' = Do(p, op)
              ELSE PrintT(<<"V", k, 0, i + 1, op, p, {}>>) /\ i' = -1 /\ p' = p
        /\ k' = k
Accept == i >= 0 /\ Done /\ PrintT(<<"V", k, 1, {}>>) /\ i' = -1 /\ UNCHANGED <<k, p>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_<<k, i, p>>
TInv == \A j \in 1..N : EachOnce(p[j]) /\ OneReset(p[j])
=============================================================================
