------------------------------- MODULE PapPtr -------------------------------
(* Pointers with optional ownership: a pool of slots and of objects.         *)
(*   slot == [a |-> alive, p |-> object (0: null), own |-> 0/1, d |-> deleter *)
(*            (-1: moved from, not specified)]                               *)
(*   o[i] == what became of object i: 0 not there, 1 owned by somebody       *)
(*            (a slot), 2 outside (nobody's), and nothing else: an object    *)
(*            that is freed is not there any more                            *)
(* Z = 1: the deleter has no state (there is only deleter 0).                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Dead == [a |-> 0, p |-> 0, own |-> 0, d |-> 0]
Start(NS, M) == [s |-> [i \in 1..NS |-> Dead], o |-> [i \in 1..M |-> 0]]

\* an object that is not there and that nobody refers to (its address is new)
Free(st) == {i \in 1..Len(st.o) : st.o[i] = 0 /\ \A j \in 1..Len(st.s) : st.s[j].p # i}
HasFree(st) == Free(st) # {}
Fresh(st) == CHOOSE i \in Free(st) : \A j \in Free(st) : i <= j

NeedsFresh == {"own", "ind", "view", "up", "ro", "rv", "ri", "rup"}
Makes == {"new", "null", "own", "ind", "view", "up", "upn", "copy", "move"}
Legal(st, op) ==
    LET o == op[1]
        x == st.s[op[2]]
    IN CASE o = "gc" -> TRUE
         [] o \in Makes -> /\ x.a = 0
                           /\ o \in NeedsFresh => HasFree(st)
                           /\ o \in {"copy", "move"} => (op[3] # op[2] /\ st.s[op[3]].a = 1)
         [] o \in {"cas", "mas", "swap"} -> x.a = 1 /\ st.s[op[3]].a = 1
         [] OTHER -> /\ x.a = 1
                     /\ o \in NeedsFresh => HasFree(st)
                     \* without a deleter nothing can be taken into ownership
                     /\ o \in {"ro", "ri"} => x.d # -1

\* effects: f is the set of <<object, deleter>> that are deleted
R(st, f) == [s |-> st, f |-> f]
Drop(st, a) == IF st.s[a].own = 1 THEN [st EXCEPT !.o[st.s[a].p] = 0] ELSE st
Freed(st, a) == IF st.s[a].own = 1 THEN {<<st.s[a].p, st.s[a].d>>} ELSE {}
Set(st, a, p, own, d) == [st EXCEPT !.s[a] = [a |-> 1, p |-> p, own |-> own, d |-> d]]
Obj(st, i, v) == [st EXCEPT !.o[i] = v]
Gone(Z) == IF Z = 1 THEN 0 ELSE -1

Do(st, op, Z) ==
    LET o == op[1]
        a == op[2]
        x == st.s[a]
        n == IF HasFree(st) THEN Fresh(st) ELSE 0
        dr == Drop(st, a)
        fr == Freed(st, a)
    IN CASE o \in {"new", "null", "upn"} -> R(Set(st, a, 0, 0, IF o = "upn" THEN op[3] ELSE 0), {})
         [] o \in {"own", "ind"} -> R(Obj(Set(st, a, n, 1, 0), n, 1), {})
         [] o = "view" -> R(Obj(Set(st, a, n, 0, 0), n, 2), {})
         [] o = "up" -> R(Obj(Set(st, a, n, 1, op[3]), n, 1), {})
         [] o = "copy" -> R(Set(st, a, st.s[op[3]].p, 0, st.s[op[3]].d), {})
         [] o = "move" -> R(Set(Set(st, a, st.s[op[3]].p, st.s[op[3]].own, st.s[op[3]].d), op[3], 0, 0, Gone(Z)), {})
         [] o = "del" -> R([dr EXCEPT !.s[a] = Dead], fr)
         [] o = "cas" -> IF op[3] = a THEN R(st, {}) ELSE R(Set(dr, a, st.s[op[3]].p, 0, st.s[op[3]].d), fr)
         [] o = "mas" -> IF op[3] = a THEN R(st, {})
                         ELSE R(Set(Set(dr, a, st.s[op[3]].p, st.s[op[3]].own, st.s[op[3]].d), op[3], 0, 0, Gone(Z)), fr)
         [] o = "swap" -> R([st EXCEPT !.s[a] = st.s[op[3]], !.s[op[3]] = x], {})
         \* resets: without an argument, to null, to null "owned", to a new object
         [] o \in {"r", "rn", "rno", "rupn"} -> R(Set(dr, a, 0, 0, x.d), fr)
         [] o \in {"ro", "ri"} -> R(Obj(Set(dr, a, n, 1, x.d), n, 1), fr)
         [] o = "rv" -> R(Obj(Set(dr, a, n, 0, x.d), n, 2), fr)
         [] o = "rup" -> R(Obj(Set(dr, a, n, 1, op[3]), n, 1), fr)
         [] o = "rel" -> R(IF x.own = 1 THEN Obj(Set(st, a, 0, 0, x.d), x.p, 2) ELSE Set(st, a, 0, 0, x.d), {})
         [] o = "sd" -> R(Set(st, a, x.p, x.own, op[3]), {})
         \* everything that is outside is removed
         [] o = "gc" -> R([st EXCEPT !.o = [i \in 1..Len(st.o) |-> IF st.o[i] = 2 THEN 0 ELSE st.o[i]]], {})

\* an object that is there is owned by exactly one slot or is outside
Inv(st) == \A i \in 1..Len(st.o) :
             LET ow == {j \in 1..Len(st.s) : st.s[j].a = 1 /\ st.s[j].own = 1 /\ st.s[j].p = i}
             IN (st.o[i] = 1 => Cardinality(ow) = 1) /\ (st.o[i] # 1 => ow = {})
OwnInv(st) == \A j \in 1..Len(st.s) : st.s[j].own = 1 => st.s[j].p # 0 /\ st.s[j].d # -1
=============================================================================
