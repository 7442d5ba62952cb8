------------------------------ MODULE StrTrace ------------------------------
(* Judges recorded histories of real string containers.  Record: NS, B the   *)
(* outside texts, ops, r: what was seen after every call - x 1 if the call   *)
(* was skipped as impossible, e what it gave, c the containers (a, own, t),  *)
(* b the outside texts.                                                      *)
EXTENDS PapStr, TLC, Json, IOUtils
VARIABLES k, i, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == k \in 1..Len(Trace) /\ i = 0 /\ st = Start(Trace[k].NS, Trace[k].B)
Same(s, j, y) ==
    LET x == s.c[j]
    IN /\ x.a = y.a
       /\ (x.a = 1 /\ x.own # -1) => (x.own = y.own /\ Text(s, j) = y.t)
Explains(op, ob) ==
    IF ob.x = 1 THEN ~Legal(st, op)
    ELSE /\ Legal(st, op)
         /\ LET r == Do(st, op)
            IN /\ ob.e = r.e
               /\ ob.b = r.s.b
               /\ \A j \in 1..Len(st.c) : Same(r.s, j, ob.c[j])
Done == i = Len(Trace[k].ops)
Step == /\ i >= 0 /\ ~Done
        /\ LET op == Trace[k].ops[i + 1]
               ob == Trace[k].r[i + 1]
           IN IF Explains(op, ob)
              THEN i' = i + 1 /\ st' = IF ob.x = 1 THEN st ELSE Do(st, op).s
              ELSE PrintT(<<"V", k, 0, i + 1, op, st, {}>>) /\ i' = -1 /\ st' = st
        /\ k' = k
Accept == i >= 0 /\ Done /\ PrintT(<<"V", k, 1, {}>>) /\ i' = -1 /\ UNCHANGED <<k, st>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_<<k, i, st>>
TInv == Shape(st)
TFrame == [][i' > i => (st' = st \/ Others(st, Trace[k].ops[i + 1], st'))]_<<k, i, st>>
=============================================================================
