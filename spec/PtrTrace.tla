------------------------------ MODULE PtrTrace ------------------------------
(* Judges recorded histories of real optional_unique_ptrs.                   *)
(* ob: x 1 if the call was skipped as impossible, s slots, f deletions, l    *)
(* objects that are there                                                    *)
EXTENDS PapPtr, TLC, Json, IOUtils
VARIABLES k, i, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == k \in 1..Len(Trace) /\ i = 0 /\ st = Start(3, 6)
ToSet(s) == {s[j] : j \in 1..Len(s)}
Slot(x, y, Z) == x.a = y.a /\ x.p = y.p /\ x.own = y.own /\ (x.a = 0 \/ Z = 1 \/ x.d = -1 \/ x.d = y.d)
Explains(op, ob, Z) ==
    IF ob.x = 1 THEN ~Legal(st, op)
    ELSE /\ Legal(st, op)
         /\ LET r == Do(st, op, Z)
            IN /\ \A j \in 1..3 : Slot(r.s.s[j], ob.s[j], Z)
               /\ Len(ob.f) = Cardinality(r.f) /\ ToSet(ob.f) = r.f
               /\ ToSet(ob.l) = {j \in 1..6 : r.s.o[j] # 0}
Done == i = Len(Trace[k].ops)
Step == /\ i >= 0 /\ ~Done
        /\ LET T == Trace[k]
               op == T.ops[i + 1]
               ob == T.r[i + 1]
           IN IF Explains(op, ob, T.Z)
              THEN i' = i + 1 /\ st' = IF ob.x = 1 THEN st ELSE Do(st, op, T.Z).s
              ELSE PrintT(<<"V", k, 0, i + 1, op, st, {}>>) /\ i' = -1 /\ st' = st
        /\ k' = k
Accept == i >= 0 /\ Done /\ PrintT(<<"V", k, 1, {}>>) /\ i' = -1 /\ UNCHANGED <<k, st>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_<<k, i, st>>
TInv == Inv(st) /\ OwnInv(st)
=============================================================================
