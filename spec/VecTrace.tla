------------------------------ MODULE VecTrace ------------------------------
(* Judges recorded histories of the real small vector.  Record: C inline     *)
(* capacity, ops, r: what was seen after every call - e, x as in PapVec, p   *)
(* the slots, n live elements, b live heap blocks, m slots whose first       *)
(* element is somewhere else than before the call.                           *)
EXTENDS PapVec, TLC, Json, IOUtils
VARIABLES k, i, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Slots == 1..3
Init == k \in 1..Len(Trace) /\ i = 0 /\ st = [j \in Slots |-> Dead]

Seen(ob) == ob.p
Explains(op, ob, C) ==
    IF ob.e = "skip" THEN ~Legal(st, op) /\ Seen(ob) = st
    ELSE
    /\ Legal(st, op)
    /\ LET d == Do(st, op)
           new == Seen(ob)
       IN /\ IF ob.e = "thrown"     \* a constructor of an element was made to fail
             THEN \A j \in Slots \ Touched(op) : new[j] = st[j]
             ELSE /\ ob.e = d.e
                  /\ ob.x = d.x
                  /\ \A j \in Slots : new[j].a = d.s[j].a /\ new[j].v = d.s[j].v
                  /\ \A j \in Slots \ Touched(op) : new[j] = st[j]
                  \* elements do not move while the capacity suffices
                  /\ (op[1] \in Grows /\ Need(op, new[op[2]].v) <= st[op[2]].c)
                        => (ob.m[op[2]] = 0 /\ new[op[2]].c = st[op[2]].c)
                  /\ op[1] = "res" => new[op[2]].c >= op[3]
          /\ \A j \in Slots : CapInv(new[j], C)
          /\ ob.n = Total(new)
          /\ ob.b = Blocks(new)

Done == i = Len(Trace[k].ops)
Step == /\ i >= 0 /\ ~Done
        /\ LET op == Trace[k].ops[i + 1]
               ob == Trace[k].r[i + 1]
           IN IF Explains(op, ob, Trace[k].C)
              THEN st' = Seen(ob) /\ i' = i + 1
              ELSE PrintT(<<"V", k, 0, i + 1, op, IF Legal(st, op) THEN Do(st, op) ELSE "illegal", {}>>) /\ i' = -1 /\ st' = st
        /\ k' = k
Accept == i >= 0 /\ Done /\ PrintT(<<"V", k, 1, {}>>) /\ i' = -1 /\ UNCHANGED <<k, st>>
Next == Step \/ Accept
Spec == Init /\ [][Next]_<<k, i, st>>
=============================================================================
