------------------------------ MODULE VarTrace ------------------------------
(* Judges recorded histories of real script variables.  Record: NS, ops, r:  *)
(* what was seen after every call - e the answer, p kind, value and ownership of *)
(* every variable.                                                           *)
EXTENDS PapVar, TLC, Json, IOUtils
VARIABLES k, i, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == k \in 1..Len(Trace) /\ i = 0 /\ st = Start(Trace[k].NS)
Same(v, y) == IF v.k \in {"n", "u"} THEN TRUE
              ELSE LET x == Show(v) IN x[1] = y[1] /\ x[2] = y[2] /\ x[3] \in {-1, y[3]}
Explains(op, ob) ==
    /\ Assert(Legal(st, op), <<"a call that is not possible", st, op>>)
    /\ LET r == Do(st, op)
       IN ob.e = r.e /\ \A j \in 1..Len(st) : Same(r.s[j], ob.p[j])
Done == i = Len(Trace[k].ops)
Step == /\ i >= 0 /\ ~Done
        /\ LET op == Trace[k].ops[i + 1]
               ob == Trace[k].r[i + 1]
           IN IF Explains(op, ob)
              THEN i' = i + 1 /\ st' = Do(st, op).s
              ELSE PrintT(<<"V", k, 0, i + 1, op, st, {}>>) /\ i' = -1 /\ st' = st
        /\ k' = k
Accept == i >= 0 /\ Done /\ PrintT(<<"V", k, 1, {}>>) /\ i' = -1 /\ UNCHANGED <<k, st>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_<<k, i, st>>
TInv == Inv(st) /\ \A a \in 1..Len(st), b \in 1..Len(st) : (Known(st, a) /\ Known(st, b)) => Consistent(st[a], st[b])
=============================================================================
