----------------------------- MODULE ViewTrace ------------------------------
(* Judges recorded histories of real string views.  Record: enc, ops, r:     *)
(* what was seen after every call - x 1 if the call was skipped as           *)
(* impossible, e the answer, w the text in the window.                       *)
EXTENDS PapView, TLC, Json, IOUtils
VARIABLES k, i, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == k \in 1..Len(Trace) /\ i = 0 /\ st = [t |-> <<>>, lo |-> 0, hi |-> 0]
Legal(op) == /\ op[1] = "asg" => (op[2] <= op[3] /\ op[3] <= Len(Win(st)))
             /\ op[1] = "nth" => (op[2] <= Len(Win(st)) /\ op[3] <= Len(Win(st)))
Explains(op, ob) ==
    IF ob.x = 1 THEN ~Legal(op)
    ELSE /\ Legal(op)
         /\ LET r == Do(st, op, Trace[k].enc)
            IN ob.e = r.e /\ ob.w = Win(r.s)
Done == i = Len(Trace[k].ops)
Step == /\ i >= 0 /\ ~Done
        /\ LET op == Trace[k].ops[i + 1]
               ob == Trace[k].r[i + 1]
           IN IF Explains(op, ob)
              THEN i' = i + 1 /\ st' = IF ob.x = 1 THEN st ELSE Do(st, op, Trace[k].enc).s
              ELSE PrintT(<<"V", k, 0, i + 1, op, st, {}>>) /\ i' = -1 /\ st' = st
        /\ k' = k
Accept == i >= 0 /\ Done /\ PrintT(<<"V", k, 1, {}>>) /\ i' = -1 /\ UNCHANGED <<k, st>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_<<k, i, st>>
TInv == Inv(st)
\* a question or a slice never lengthens the window
TFrame == [][i' > i /\ Trace[k].ops[i + 1][1] # "set" => Len(Win(st')) <= Len(Win(st))]_<<k, i, st>>
=============================================================================
