------------------------------ MODULE PapAccess ------------------------------
(* Designating an argument and reaching a part of it: field names, automatic *)
(* numbering, and chained index / slice / attribute access.                  *)
(*                                                                           *)
(* A : the arguments, [pos |-> sequence of values, nam |-> sequence of       *)
(*     [n |-> name, v |-> value], w |-> 0 (narrow) or 1 (wide)].             *)
(* S : the script (sequence of code points), p : a position in it.           *)
(* n : number of automatic fields consumed so far, m : explicit index used.  *)
(* Every parsing operator returns [e, p, n, m, v] where e is "" or the error *)
(* that ends the formatting.                                                 *)
EXTENDS PapText

Ok(p, n, m, v) == [e |-> "", p |-> p, n |-> n, m |-> m, v |-> v]
Err(e, p, n, m) == [e |-> e, p |-> p, n |-> n, m |-> m, v |-> <<>>]

Nil == [t |-> "n"]
VInt(i) == [t |-> "i", g |-> i.g, l |-> i.l]
VNat(x) == VInt(IntVal(x))
VBool(b) == [t |-> "b", v |-> IF b THEN 1 ELSE 0]
VCp(c) == [t |-> "c", v |-> c]
VStr(s) == [t |-> "s", v |-> s]

NPos == 1073741824      \* "until the end"; larger than any size

\* ------------------------------------------------------------ quoted texts
EscCh(c) == IF c = 110 THEN 10 ELSE IF c = 116 THEN 9 ELSE c
RECURSIVE QStr(_, _, _, _)
\* parse the rest of a quoted text; esc: an escape has been seen before
QStr(S, p, acc, esc) ==
    IF p > Len(S) THEN [e |-> "end_of_string", p |-> p, v |-> acc]
    ELSE IF S[p] = BSLASH
         THEN IF p + 1 > Len(S) THEN [e |-> "invalid_string", p |-> p, v |-> acc]
              ELSE QStr(S, p + 2, Append(acc, EscCh(S[p + 1])), TRUE)
    ELSE IF S[p] = QUOTE THEN [e |-> "", p |-> p + 1, v |-> acc]
    ELSE QStr(S, p + 1, Append(acc, S[p]), esc)
ParseQStr(S, p) == QStr(S, p, <<>>, FALSE)

RECURSIVE SkipQStr(_, _)
\* skip a quoted text without looking at what it says
SkipQStr(S, p) == IF p > Len(S) THEN p
                  ELSE IF S[p] = BSLASH THEN SkipQStr(S, Min(p + 2, Len(S) + 1))
                  ELSE IF S[p] = QUOTE THEN p + 1
                  ELSE SkipQStr(S, p + 1)

\* ------------------------------------------------------------ integers
\* [-]digits, a signed 64-bit value
ParseInt64(S, p) ==
    IF p > Len(S) THEN [e |-> "end_of_string", p |-> p, v |-> IntVal(0)]
    ELSE LET neg == S[p] = MINUS
             b == IF neg THEN p + 1 ELSE p
             q == DigitsEnd(S, b)
             r == ParseMag(S, b, q, Zero64, IF neg THEN Pow63 ELSE Max63)
         IN IF neg /\ b > Len(S) THEN [e |-> "end_of_string", p |-> b, v |-> IntVal(0)]
            ELSE IF neg /\ ~IsDigit(S[b]) THEN [e |-> "invalid_index", p |-> b, v |-> IntVal(0)]
            ELSE IF ~r.ok THEN [e |-> "out_of_range", p |-> p, v |-> IntVal(0)]
            ELSE [e |-> "", p |-> q, v |-> [g |-> IF neg THEN 1 ELSE 0, l |-> r.l]]

\* ------------------------------------------------------------ index values
\* [e, p, v] with v = [k |-> "int", i], [k |-> "str", s] or [k |-> "rng", a, b]
ParseIndex(S, p) ==
    IF p > Len(S) THEN [e |-> "end_of_string", p |-> p, v |-> <<>>]
    ELSE IF S[p] = QUOTE
         THEN LET r == ParseQStr(S, p + 1)
              IN [e |-> r.e, p |-> r.p, v |-> [k |-> "str", s |-> r.v]]
    ELSE IF S[p] = MINUS \/ IsDigit(S[p])
         THEN LET r == ParseInt64(S, p)
              IN IF r.e # "" THEN [e |-> r.e, p |-> r.p, v |-> <<>>]
                 ELSE IF r.p <= Len(S) /\ S[r.p] = COLON
                      THEN LET q == r.p + 1
                           IN IF q > Len(S) THEN [e |-> "end_of_string", p |-> q, v |-> <<>>]
                              ELSE IF S[q] = MINUS \/ IsDigit(S[q])
                                   THEN LET r2 == ParseInt64(S, q)
                                        IN [e |-> r2.e, p |-> r2.p,
                                            v |-> [k |-> "rng", a |-> ClampInt(r.v), b |-> ClampInt(r2.v)]]
                                   ELSE [e |-> "", p |-> q,
                                         v |-> [k |-> "rng", a |-> ClampInt(r.v), b |-> NPos]]
                 ELSE [e |-> "", p |-> r.p, v |-> [k |-> "int", i |-> ClampInt(r.v), f |-> r.v]]
    ELSE IF S[p] = COLON
         THEN LET q == p + 1
              IN IF q > Len(S) THEN [e |-> "end_of_string", p |-> q, v |-> <<>>]
                 ELSE IF S[q] = MINUS \/ IsDigit(S[q])
                      THEN LET r2 == ParseInt64(S, q)
                           IN [e |-> r2.e, p |-> r2.p, v |-> [k |-> "rng", a |-> 0, b |-> ClampInt(r2.v)]]
                      ELSE [e |-> "", p |-> q, v |-> [k |-> "rng", a |-> 0, b |-> NPos]]
    ELSE [e |-> "invalid_index", p |-> p, v |-> <<>>]

\* ------------------------------------------------------------ accessors
\* Result of one access: [e, v]
Acc(v) == [e |-> "", v |-> v]
AccErr(e) == [e |-> e, v |-> Nil]

\* start and stop (0-based, half open) of the slice a:b of a sequence of length n
SliceBounds(a, b, n) ==
    LET s == IF a < 0 THEN Max(n + a, 0) ELSE Min(a, n)
        t == IF b = NPos THEN n ELSE IF b < 0 THEN Max(n + b, 0) ELSE Min(b, n)
    IN IF s >= t THEN <<0, 0>> ELSE <<s, t>>
SliceOf(s, a, b) == LET x == SliceBounds(a, b, Len(s)) IN SubSeq(s, x[1] + 1, x[2])
\* 1-based position of element i (negative: from the end); 0 when there is none
PosOf(i, n) == IF i >= 0 THEN (IF i < n THEN i + 1 ELSE 0)
               ELSE (IF n + i >= 0 THEN n + i + 1 ELSE 0)

Contiguous(k) == k \in {"vec", "span", "arr", "carr", "fix", "small"}

\* the value stored in a container, as it is seen when it becomes an argument
RECURSIVE FindKey(_, _, _)
FindKey(kvs, k, isInt) ==
    IF kvs = <<>> THEN Nil
    ELSE IF (IF isInt THEN ClampInt(Head(kvs)[1]) = k ELSE Head(kvs)[1].v = k) THEN Head(kvs)[2]
    ELSE FindKey(Tail(kvs), k, isInt)

IndexInt(x, i) ==
    CASE x.t = "s" -> LET q == PosOf(i, Len(x.v)) IN Acc(VCp(IF q = 0 THEN 0 ELSE x.v[q]))
      [] x.t = "seq" /\ (Contiguous(x.k) \/ x.k = "vb") ->
             LET q == PosOf(i, Len(x.v)) IN Acc(IF q = 0 THEN Nil ELSE x.v[q])
      [] x.t = "tup" -> LET q == PosOf(i, Len(x.v)) IN Acc(IF q = 0 THEN Nil ELSE x.v[q])
      [] x.t = "map" /\ x.k # "other" /\ x.kt.t = "i" -> Acc(FindKey(x.v, i, TRUE))
      [] x.t = "var" -> LET q == PosOf(i, x.n) IN Acc(IF q # 0 /\ q = x.x + 1 THEN x.v ELSE Nil)
      [] OTHER -> AccErr("runtime")

IndexStr(x, s) ==
    CASE x.t = "map" /\ x.k # "other" /\ x.kt.t = "s" -> Acc(FindKey(x.v, s, FALSE))
      [] x.t = "u" /\ x.k = "cls" -> Acc(VStr(s))
      [] OTHER -> AccErr("runtime")

IndexRng(x, a, b) ==
    CASE x.t = "s" -> Acc(VStr(SliceOf(x.v, a, b)))
      [] x.t = "seq" /\ Contiguous(x.k) ->
             LET r == SliceOf(x.v, a, b)
             IN Acc(IF r = <<>> THEN Nil ELSE [t |-> "seq", k |-> "span", e |-> x.e, v |-> r])
      [] OTHER -> AccErr("runtime")

Attr(x, a, w) ==
    CASE x.t = "s" /\ a = T_length -> Acc(VNat(Len(x.v)))
      [] x.t = "s" /\ a = T_size -> Acc(VNat(Units(x.v, w)))
      [] x.t = "seq" /\ (Contiguous(x.k) \/ x.k = "vb") /\ a = T_size -> Acc(VNat(Len(x.v)))
      [] x.t = "tup" /\ Len(x.v) = 2 /\ a = T_first -> Acc(x.v[1])
      [] x.t = "tup" /\ Len(x.v) = 2 /\ a = T_second -> Acc(x.v[2])
      [] x.t = "tup" /\ a = T_size -> Acc(VNat(Len(x.v)))
      [] x.t = "map" /\ x.k # "other" /\ a = T_size -> Acc(VNat(Len(x.v)))
      [] x.t = "map" /\ x.k \in {"less", "greater", "flat"} /\ a \in {T_min, T_max} ->
             IF x.v = <<>> THEN Acc(Nil)
             ELSE IF (a = T_min) = (x.k # "greater") THEN Acc(x.v[1][2]) ELSE Acc(x.v[Len(x.v)][2])
      [] x.t = "opt" /\ a = T_value -> Acc(IF x.h = 1 THEN x.v ELSE Nil)
      [] x.t = "opt" /\ a = T_has_value -> Acc(VBool(x.h = 1))
      [] x.t = "exp" /\ a = T_value -> Acc(IF x.h = 1 THEN x.v ELSE Nil)
      [] x.t = "exp" /\ a = T_error -> Acc(IF x.h = 0 THEN x.v ELSE Nil)
      [] x.t = "exp" /\ a = T_has_value -> Acc(VBool(x.h = 1))
      [] x.t = "ti" /\ a = T_name -> Acc(VStr(x.v))
      [] x.t = "var" /\ a = T_index -> Acc(VNat(x.x))
      [] x.t = "var" /\ a = T_value -> Acc(x.v)
      [] x.t = "u" /\ x.k = "cls" /\ a = T_text -> Acc(VStr(x.v))
      [] x.t = "tm" /\ a = T_year -> Acc(VNat(x.year + 1900))
      [] x.t = "tm" /\ a = T_month -> Acc(VNat(x.mon))
      [] x.t = "tm" /\ a = T_mday -> Acc(VNat(x.mday))
      [] x.t = "tm" /\ a = T_hour -> Acc(VNat(x.hour))
      [] x.t = "tm" /\ a = T_min -> Acc(VNat(x.min))
      [] x.t = "tm" /\ a = T_sec -> Acc(VNat(x.sec))
      [] x.t = "tm" /\ a = T_wday -> Acc(VNat(x.wday))
      [] x.t = "tm" /\ a = T_yday -> Acc(VNat(x.yday))
      [] x.t = "tm" /\ a = T_is_dst -> Acc(VBool(x.isdst # 0))
      [] OTHER -> AccErr("attr")

\* ------------------------------------------------------------ chains
RECURSIVE Chain(_, _, _, _, _, _)
Chain(S, p, n, m, A, cur) ==
    IF p > Len(S) THEN Ok(p, n, m, cur)
    ELSE IF S[p] = DOT
         THEN LET q == NameEnd(S, p + 1, TRUE)
                  nm == SubSeq(S, p + 1, q - 1)
              IN IF nm = <<>> THEN Err("invalid_attribute", p, n, m)
                 ELSE LET r == Attr(cur, nm, A.w)
                      IN IF r.e # "" THEN Err(r.e, p, n, m) ELSE Chain(S, q, n, m, A, r.v)
    ELSE IF S[p] = LSB
         THEN LET x == ParseIndex(S, p + 1)
              IN IF x.e # "" THEN Err(x.e, p, n, m)
                 ELSE IF x.p > Len(S) THEN Err("end_of_string", x.p, n, m)
                 ELSE IF S[x.p] # RSB THEN Err("invalid_index", x.p, n, m)
                 ELSE LET r == CASE x.v.k = "int" -> IF cur.t = "u" /\ cur.k = "cls" THEN Acc(VInt(x.v.f)) ELSE IndexInt(cur, x.v.i)
                                 [] x.v.k = "str" -> IndexStr(cur, x.v.s)
                                 [] OTHER -> IndexRng(cur, x.v.a, x.v.b)
                      IN IF r.e # "" THEN Err(r.e, p, n, m) ELSE Chain(S, x.p + 1, n, m, A, r.v)
    ELSE Ok(p, n, m, cur)

\* position of the named argument called nm; 0 when there is none.  The first
\* one counts, or the last one when the arguments say so.
NamedPos(A, nm) ==
    LET C == {i \in 1..Len(A.nam) : A.nam[i].n = nm}
    IN IF C = {} THEN 0 ELSE CHOOSE i \in C : \A j \in C : IF A.lw = 1 THEN j <= i ELSE j >= i

\* ------------------------------------------------------------ field names
Access(S, p, n, m, A) ==
    IF p > Len(S) THEN Err("end_of_string", p, n, m)
    ELSE IF IsDigit(S[p])
         THEN LET q == DigitsEnd(S, p)
                  r == ParseMag(S, p, q, Zero64, Max63)
              IN IF ~r.ok THEN Err("format_error", p, n, m)
                 ELSE LET i == ClampInt([g |-> 0, l |-> r.l])
                      IN IF i >= Len(A.pos) THEN Err("format_error", p, n, m)
                         ELSE Chain(S, q, n, TRUE, A, A.pos[i + 1])
    ELSE IF IsNameCh(S[p], TRUE)
         THEN LET q == NameEnd(S, p + 1, FALSE)
                  i == NamedPos(A, SubSeq(S, p, q - 1))
              IN IF i = 0 THEN Err("out_of_range", p, n, m)
                 ELSE Chain(S, q, n, m, A, A.nam[i].v)
    ELSE IF S[p] \in {RB, COLON, DOT, LSB}
         THEN IF m THEN Err("format_error", p, n, m)
              ELSE IF n >= Len(A.pos) THEN Err("out_of_range", p, n, m)
              ELSE Chain(S, p, n + 1, m, A, A.pos[n + 1])
    ELSE Err("invalid_field_name", p, n, m)
==============================================================================
