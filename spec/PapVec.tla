------------------------------- MODULE PapVec -------------------------------
(* Small vectors: a pool of slots, each holding no vector or a vector, and   *)
(* every public operation on them as a transition.                           *)
(*   slot == [a |-> 0 or 1 (alive), v |-> content, c |-> capacity,           *)
(*            d |-> 0 (inline) or 1 (heap)]                                  *)
(* c and d are not determined by the history (how much memory is taken is    *)
(* the implementation's choice) but constrained in every state (CapInv) and  *)
(* in every step (Stable).                                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Dead == [a |-> 0, v |-> <<>>, c |-> 0, d |-> 0]
Vec(v) == [a |-> 1, v |-> v, c |-> 0, d |-> 0]

InsAt(v, p, x) == SubSeq(v, 1, p) \o <<x>> \o SubSeq(v, p + 1, Len(v))
Rep(n, x) == [i \in 1..n |-> x]
Resize(v, n, x) == IF n <= Len(v) THEN SubSeq(v, 1, n) ELSE v \o Rep(n - Len(v), x)

\* op == <<name, slot, ...>>; is it a legal call?
Legal(st, op) ==
    LET o == op[1]
        a == op[2]
        al == st[a].a = 1
        v == st[a].v
    IN CASE o \in {"new", "newv", "newl"} -> ~al
         [] o \in {"copy", "move"} -> ~al /\ op[3] # a /\ st[op[3]].a = 1
         [] o \in {"cas", "swap", "asgo"} -> al /\ st[op[3]].a = 1 /\ (o = "asgo" => op[3] # a)
         [] o = "mas" -> al /\ op[3] # a /\ st[op[3]].a = 1
         [] o \in {"pop"} -> al /\ v # <<>>
         [] o \in {"pushs", "embs"} -> al /\ op[3] < Len(v)
         [] o \in {"ins", "emp"} -> al /\ op[3] <= Len(v)
         [] o = "inss" -> al /\ op[3] <= Len(v) /\ op[4] < Len(v)
         [] o = "rss" -> al /\ op[4] < Len(v)
         [] OTHER -> al

R(st, e, x) == [s |-> st, e |-> e, x |-> x]
Put(st, a, v) == [st EXCEPT ![a] = [@ EXCEPT !.a = 1, !.v = v]]

\* the effect of a legal call: the pool afterwards, the error, the value returned
Do(st, op) ==
    LET o == op[1]
        a == op[2]
        v == st[a].v
    IN CASE o = "new" -> R(Put(st, a, <<>>), "", 0)
         [] o \in {"newv", "newl"} -> R(Put(st, a, op[3]), "", 0)
         [] o = "copy" -> R(Put(st, a, st[op[3]].v), "", 0)
         [] o = "move" -> R(Put(Put(st, a, st[op[3]].v), op[3], <<>>), "", 0)
         [] o = "del" -> R([st EXCEPT ![a] = Dead], "", 0)
         [] o \in {"cas", "asgo"} -> R(Put(st, a, st[op[3]].v), "", 0)
         [] o = "mas" -> R(Put(Put(st, a, st[op[3]].v), op[3], <<>>), "", 0)
         [] o = "swap" -> R(Put(Put(st, a, st[op[3]].v), op[3], v), "", 0)
         [] o \in {"asgv", "asgl"} -> R(Put(st, a, op[3]), "", 0)
         [] o \in {"app", "appl"} -> R(Put(st, a, v \o op[3]), "", 0)
         [] o \in {"push", "emb"} -> R(Put(st, a, Append(v, op[3])), "", op[3])
         [] o \in {"pushs", "embs"} -> R(Put(st, a, Append(v, v[op[3] + 1])), "", v[op[3] + 1])
         [] o \in {"ins", "emp"} -> R(Put(st, a, InsAt(v, op[3], op[4])), "", op[3])
         [] o = "inss" -> R(Put(st, a, InsAt(v, op[3], v[op[4] + 1])), "", op[3])
         [] o = "pop" -> R(Put(st, a, SubSeq(v, 1, Len(v) - 1)), "", 0)
         [] o = "clear" -> R(Put(st, a, <<>>), "", 0)
         [] o = "rs" -> R(Put(st, a, Resize(v, op[3], 0)), "", 0)
         [] o = "rsv" -> R(Put(st, a, Resize(v, op[3], op[4])), "", 0)
         [] o = "rss" -> R(Put(st, a, Resize(v, op[3], v[op[4] + 1])), "", 0)
         [] o \in {"res", "fit"} -> R(st, "", 0)
         [] o = "at" -> IF op[3] < Len(v) THEN R(st, "", v[op[3] + 1]) ELSE R(st, "out_of_range", 0)

\* slots whose content a failed call may have changed
Touched(op) == IF op[1] \in {"swap", "mas", "move"} THEN {op[2], op[3]} ELSE {op[2]}

\* calls after which the elements are where they were, if the capacity sufficed
Grows == {"push", "pushs", "emb", "embs", "ins", "emp", "inss", "app", "appl", "rs", "rsv", "rss", "pop", "clear", "res", "at", "asgv"}
Need(op, v) == IF op[1] = "res" THEN op[3] ELSE Len(v)

\* every vector's capacity and place, C: inline capacity
CapInv(x, C) == x.a = 1 => /\ x.c >= Len(x.v)
                           /\ x.c >= C
                           /\ x.d = 0 => x.c = C
RECURSIVE Total(_)
Total(st) == IF st = <<>> THEN 0 ELSE Len(Head(st).v) + Total(Tail(st))
Blocks(st) == Cardinality({i \in 1..Len(st) : st[i].a = 1 /\ st[i].d = 1})
=============================================================================
