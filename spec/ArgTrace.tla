------------------------------ MODULE ArgTrace ------------------------------
(* Judges recorded histories of real argument values.                        *)
(* ob: x 1 if the call was skipped as impossible, s the slots, l the live    *)
(* objects, as in Seen                                                       *)
EXTENDS PapArg, TLC, Json, IOUtils
VARIABLES k, i, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NSlots == 4
Init == k \in 1..Len(Trace) /\ i = 0 /\ st = Start(NSlots)
Same(w, b) == IF w.a = 0 THEN b.a = 0
              ELSE /\ b.a = 1 /\ b.k = w.k /\ b.v = w.v /\ b.g = w.g /\ b.q = w.q /\ b.ok = 1
                   /\ w.own \in {-1, b.own}
                   /\ w.f \in {-1, b.f}
Explains(op, ob) ==
    IF ob.x = 1 THEN ~Legal(st, op)
    ELSE /\ Legal(st, op)
         /\ LET z == Seen(Do(st, op))
            IN z.l = ob.l /\ \A j \in 1..NSlots : Same(z.s[j], ob.s[j])
Done == i = Len(Trace[k].ops)
Step == /\ i >= 0 /\ ~Done
        /\ LET T == Trace[k]
               op == T.ops[i + 1]
               ob == T.r[i + 1]
           IN IF Explains(op, ob)
              THEN i' = i + 1 /\ st' = IF ob.x = 1 THEN st ELSE Do(st, op)
              ELSE PrintT(<<"V", k, 0, i + 1, op, st, {}>>) /\ i' = -1 /\ st' = st
        /\ k' = k
Accept == i >= 0 /\ Done /\ PrintT(<<"V", k, 1, {}>>) /\ i' = -1 /\ UNCHANGED <<k, st>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_<<k, i, st>>
TInv == Inv(st)
=============================================================================
