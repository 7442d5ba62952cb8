------------------------------ MODULE PapArgs ------------------------------
(* Argument collections: a pool of slots, each empty or holding a collection *)
(*   slot == [a  |-> 0 nothing, 1 dynamic, 2 static, 3 reference,            *)
(*            x  |-> the positional arguments in order,                      *)
(*            n  |-> for every name 1..NN the argument (0: none),            *)
(*            to |-> of a reference: the slot it refers to]                  *)
(* An argument is a number; an item is <<name (0: positional), argument>>.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Nothing(NN) == [a |-> 0, x |-> <<>>, n |-> [i \in 1..NN |-> 0], to |-> 0]
Start(NS, NN) == [i \in 1..NS |-> Nothing(NN)]

RECURSIVE Target(_, _)
Target(st, s) == IF st[s].a = 3 THEN Target(st, st[s].to) ELSE s
Indexed(st, s) == st[Target(st, s)].x
Named(st, s) == st[Target(st, s)].n

Referred(st, s) == \E j \in 1..Len(st) : st[j].a = 3 /\ st[j].to = s
Names(items) == {j \in 1..Len(items) : items[j][1] # 0}
\* of the same name given twice a static collection makes no promise
Distinct(items) == \A i, j \in Names(items) : i # j => items[i][1] # items[j][1]

Births == {"new", "newv", "st", "ref", "cp", "dmv", "smv"}
Legal(st, op) ==
    LET o == op[1]
        s == op[2]
    IN /\ o \in Births => st[s].a = 0
       /\ CASE o \in {"new", "newv"} -> TRUE
            [] o = "st" -> Distinct(op[3])
            [] o = "ref" -> op[3] # s /\ st[op[3]].a # 0
            [] o = "cp" -> op[3] # s /\ st[op[3]].a = 2
            [] o = "dmv" -> op[3] # s /\ st[op[3]].a = 1
            [] o = "smv" -> op[3] # s /\ st[op[3]].a = 2 /\ ~Referred(st, op[3])
            [] o \in {"emp", "app", "clr"} -> st[s].a = 1
            [] o = "del" -> st[s].a # 0 /\ ~Referred(st, s)

\* one more item; of the same name given twice the first one stays
Add(c, it) == IF it[1] = 0 THEN [c EXCEPT !.x = Append(@, it[2])]
              ELSE IF c.n[it[1]] # 0 THEN c
              ELSE [c EXCEPT !.n[it[1]] = it[2]]
RECURSIVE AddAll(_, _)
AddAll(c, items) == IF items = <<>> THEN c ELSE AddAll(Add(c, Head(items)), Tail(items))

Do(st, op, NN) ==
    LET o == op[1]
        s == op[2]
        none == Nothing(NN)
    IN CASE o = "new" -> [st EXCEPT ![s].a = 1]
         [] o = "newv" -> [st EXCEPT ![s] = AddAll([none EXCEPT !.a = 1], op[3])]
         [] o = "st" -> [st EXCEPT ![s] = AddAll([none EXCEPT !.a = 2], op[3])]
         \* op[4] = 1: made from a reference, it refers to that, otherwise to what that refers to
         [] o = "ref" -> [st EXCEPT ![s] = [none EXCEPT !.a = 3, !.to = IF op[4] = 1 THEN op[3] ELSE Target(st, op[3])]]
         [] o = "cp" -> [st EXCEPT ![s] = st[op[3]]]
         \* the one that was moved from is cleared at once (before, it is unspecified)
         [] o = "dmv" -> [st EXCEPT ![s] = st[op[3]], ![op[3]] = [none EXCEPT !.a = 1]]
         [] o = "smv" -> [st EXCEPT ![s] = st[op[3]], ![op[3]] = none]
         [] o = "emp" -> [st EXCEPT ![s] = Add(@, op[3])]
         [] o = "app" -> [st EXCEPT ![s] = AddAll(@, op[3])]
         [] o = "clr" -> [st EXCEPT ![s] = [none EXCEPT !.a = 1]]
         [] o = "del" -> [st EXCEPT ![s] = none]

\* What is seen of a slot: sizes; the arguments by position, first those that
\* are there, then 0 (an error) for the two positions behind; by name, the last
\* "name" being one that is never given; c: the same for "is it there"
Obs(st, s, NN) ==
    IF st[s].a = 0 THEN [a |-> 0]
    ELSE LET x == Indexed(st, s)
             m == Named(st, s)
             gi == x \o <<0, 0>>
             gn == [i \in 1..(NN + 1) |-> IF i > NN THEN 0 ELSE m[i]]
         IN [a |-> st[s].a, sz |-> Len(x), ns |-> Cardinality({i \in 1..NN : m[i] # 0}),
             gi |-> gi, gn |-> gn]
Seen(st, NN) == [s \in 1..Len(st) |-> Obs(st, s, NN)]

\* a reference refers to something that is there and is never its own target
Inv(st) == \A j \in 1..Len(st) : st[j].a = 3 => st[st[j].to].a # 0 /\ Target(st, j) # j
=============================================================================
