------------------------------ MODULE PapView -------------------------------
(* A Unicode string view: a window into a text.                              *)
(* Code points are the numbers of PapStr: 2k and 2k+1 belong to class k,     *)
(* class k takes Units[enc][k + 1] code units in encoding enc (1: UTF-8,     *)
(* 2: UTF-16, 3: UTF-32).                                                    *)
(*   st == [t |-> the text, lo, hi |-> the window]                           *)
EXTENDS Naturals, Integers, Sequences
Units == <<<<1, 2, 3, 4>>, <<1, 1, 1, 2>>, <<1, 1, 1, 1>>>>
NPOS == 99
OutOfRange == <<-2>>
None == -1

Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
Win(st) == SubSeq(st.t, st.lo + 1, st.hi)
RECURSIVE Size(_, _)
Size(s, enc) == IF s = <<>> THEN 0 ELSE Units[enc][s[1] \div 2 + 1] + Size(Tail(s), enc)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Take(s, k) == SubSeq(s, 1, k)
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Starts(s, u) == Len(u) <= Len(s) /\ Take(s, Len(u)) = u
Ends(s, u) == Len(u) <= Len(s) /\ Drop(s, Len(s) - Len(u)) = u
RECURSIVE Cmp(_, _)
Cmp(s, t) == IF s = <<>> THEN IF t = <<>> THEN 0 ELSE -1
             ELSE IF t = <<>> THEN 1
             ELSE IF s[1] < t[1] THEN -1 ELSE IF s[1] > t[1] THEN 1
             ELSE Cmp(Tail(s), Tail(t))
\* the first place from p on where u begins; the end if there is none
Find(s, u, p) ==
    LET at == {q \in p..(Len(s) - 1) : Starts(Drop(s, q), u)}
    IN IF at = {} THEN Len(s) ELSE CHOOSE q \in at : \A r \in at : q <= r
Bool(b) == IF b THEN <<1>> ELSE <<0>>

\* where bound i of a slice is in a text of length n; it may be outside
At(i, n) == IF i = NPOS THEN n ELSE IF i < 0 THEN n + i ELSE i
Inside(i, n) == i = NPOS \/ (At(i, n) >= 0 /\ At(i, n) <= n)
Clamp(i, n) == Max(0, Min(n, At(i, n)))

R(st, e) == [s |-> st, e |-> e]
Window(st, lo, hi) == IF lo < hi THEN [st EXCEPT !.lo = st.lo + lo, !.hi = st.lo + hi]
                      ELSE [st EXCEPT !.lo = st.lo + Min(lo, Len(Win(st))), !.hi = st.lo + Min(lo, Len(Win(st)))]
Do(st, op, enc) ==
    LET o == op[1]
        s == Win(st)
        n == Len(s)
    IN CASE o = "set" -> R([t |-> op[2], lo |-> 0, hi |-> Len(op[2])], <<>>)
         \* ---- calls that change the view
         [] o = "rp" -> R(Window(st, Min(op[2], n), n), <<>>)
         [] o = "rs" -> R(Window(st, 0, n - Min(op[2], n)), <<>>)
         [] o = "asg" -> R(Window(st, op[2], op[3]), <<>>)
         \* slices: x throws when outside, s is empty then
         [] o = "subx" -> IF op[2] > n THEN R(st, OutOfRange) ELSE R(Window(st, op[2], Min(n, op[2] + op[3])), <<Min(n - op[2], op[3])>>)
         [] o = "subs" -> IF op[2] > n THEN R(Window(st, n, n), <<0>>) ELSE R(Window(st, op[2], Min(n, op[2] + op[3])), <<Min(n - op[2], op[3])>>)
         [] o = "sublx" -> IF Inside(op[2], n) /\ Inside(op[3], n)
                           THEN R(Window(st, At(op[2], n), At(op[3], n)), <<>>) ELSE R(st, OutOfRange)
         [] o = "subls" -> R(Window(st, Clamp(op[2], n), Clamp(op[3], n)), <<>>)
         \* ---- calls that ask something
         [] o = "len" -> R(st, <<n>>)
         [] o = "size" -> R(st, <<Size(s, enc)>>)
         [] o = "off" -> R(st, <<IF op[2] < n THEN Size(Take(s, op[2]), enc) ELSE None>>)
         [] o = "roff" -> R(st, <<IF op[2] < n THEN Size(Take(s, n - 1 - op[2]), enc) ELSE None>>)
         [] o = "at" -> R(st, IF op[2] < n THEN <<s[op[2] + 1]>> ELSE OutOfRange)
         [] o = "rat" -> R(st, IF op[2] < n THEN <<s[n - op[2]]>> ELSE OutOfRange)
         [] o = "or" -> R(st, <<IF op[2] < n THEN s[op[2] + 1] ELSE op[3]>>)
         [] o = "ror" -> R(st, <<IF op[2] < n THEN s[n - op[2]] ELSE op[3]>>)
         [] o = "fwd" -> R(st, s)
         [] o = "bwd" -> R(st, Reverse(s))
         [] o = "conv" -> R(st, s)
         [] o = "nth" -> R(st, IF op[2] <= n /\ op[3] <= n THEN <<op[3] - op[2]>> ELSE OutOfRange)
         [] o = "findc" -> R(st, <<IF op[3] >= n THEN n ELSE Find(s, <<op[2]>>, op[3])>>)
         [] o = "find" -> R(st, <<IF op[3] >= n THEN n ELSE Find(s, op[2], op[3])>>)
         [] o = "hasc" -> R(st, Bool(Find(s, <<op[2]>>, 0) < n))
         [] o = "has" -> R(st, Bool(Find(s, op[2], 0) < n))
         [] o = "sw" -> R(st, Bool(Starts(s, op[2])))
         [] o = "ew" -> R(st, Bool(Ends(s, op[2])))
         [] o = "swc" -> R(st, Bool(Starts(s, <<op[2]>>)))
         [] o = "ewc" -> R(st, Bool(Ends(s, <<op[2]>>)))
         [] o = "cmp" -> R(st, <<Cmp(s, op[2])>>)

Inv(st) == 0 <= st.lo /\ st.lo <= st.hi /\ st.hi <= Len(st.t)
\* what is true of every answer, whatever it is
Sane(st, op, e) ==
    LET s == Win(st)
        n == Len(s)
    IN /\ op[1] \in {"find", "findc"} => e[1] <= n
       /\ op[1] = "bwd" => Reverse(e) = s
       /\ op[1] = "cmp" => (e[1] = 0) = (s = op[2]) /\ e[1] = 0 - Cmp(op[2], s)
       /\ op[1] = "has" => (op[2] = <<>> => (e = <<1>>) = (n > 0))
=============================================================================
