----------------------------- MODULE ArgsTrace -----------------------------
(* Judges recorded histories of real argument collections.                   *)
(* ob: x 1 if the call was skipped as impossible; s the slots as in Seen,    *)
(* each with ok 1 if all ways to look it up agreed                           *)
EXTENDS PapArgs, TLC, Json, IOUtils
VARIABLES k, i, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NSlots == 3
Init == k \in 1..Len(Trace) /\ i = 0 /\ st = Start(NSlots, Trace[k].NN)
Same(o, b) == IF o.a = 0 THEN b.a = 0
              ELSE b.a = o.a /\ b.sz = o.sz /\ b.ns = o.ns /\ b.gi = o.gi /\ b.gn = o.gn /\ b.ok = 1
Explains(op, ob, NN) ==
    IF ob.x = 1 THEN ~Legal(st, op)
    ELSE /\ Legal(st, op)
         /\ LET z == Seen(Do(st, op, NN), NN)
            IN \A j \in 1..NSlots : Same(z[j], ob.s[j])
Done == i = Len(Trace[k].ops)
Step == /\ i >= 0 /\ ~Done
        /\ LET T == Trace[k]
               op == T.ops[i + 1]
               ob == T.r[i + 1]
           IN IF Explains(op, ob, T.NN)
              THEN i' = i + 1 /\ st' = IF ob.x = 1 THEN st ELSE Do(st, op, T.NN)
              ELSE PrintT(<<"V", k, 0, i + 1, op, st, {}>>) /\ i' = -1 /\ st' = st
        /\ k' = k
Accept == i >= 0 /\ Done /\ PrintT(<<"V", k, 1, {}>>) /\ i' = -1 /\ UNCHANGED <<k, st>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_<<k, i, st>>
TInv == Inv(st)
=============================================================================
