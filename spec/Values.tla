------------------------------ MODULE Values -------------------------------
(* The design model of the value types: how the crate computes instants     *)
(* (whole seconds and nanoseconds, each checked), system times (a signed    *)
(* number of milliseconds), serializes and deserializes them (a visitor     *)
(* that takes the fields as they come). TLC steps it and the contract in    *)
(* lockstep through every operation on every pair of values of a grid, the  *)
(* limits of every representation in between; and every document of up to   *)
(* three fields. No step may break a guard of the contract. The operations  *)
(* of each case are printed, and performed on the code.                     *)
EXTENDS WasmTimer, Json

CONSTANTS Kind, Faults, Dense, Record

VARIABLES case, plan, i, s, h, ck, dt, bad

Fault(f) == f \in Faults

-----------------------------------------------------------------------------
(* Numbers of 64 bits as limbs <<a, b, c>> of base 10^9                      *)

Sec(x) == <<x[1], x[2], x[3]>>
SLess(p, q) == \E k \in 1..3 : p[k] < q[k] /\ \A j \in 1..(k - 1) : p[j] = q[j]
Sum3(p, q) ==
  LET c == p[3] + q[3]
      b == p[2] + q[2] + c \div B
  IN <<p[1] + q[1] + b \div B, b % B, c % B>>
Dif3(p, q) ==
  LET c == p[3] - q[3]
      b == p[2] - q[2] - (IF c < 0 THEN 1 ELSE 0)
  IN <<p[1] - q[1] - (IF b < 0 THEN 1 ELSE 0), b % B, c % B>>
One3 == <<0, 0, 1>>
\* checked: <<>> stands for an overflow
Add64(p, q) == LET t == Sum3(p, q) IN IF SLess(U64, t) THEN <<>> ELSE <<t>>
Sub64(p, q) == IF SLess(p, q) THEN <<>> ELSE <<Dif3(p, q)>>
Time(p, n) == <<p[1], p[2], p[3], n>>

\* the sum and the difference of two durations, part by part
DAdd(x, d) ==
  LET t == Add64(Sec(x), Sec(d))
      n == x[4] + d[4]
  IN IF t = <<>> THEN <<>>
     ELSE IF n < B THEN <<Time(t[1], n)>>
     ELSE LET u == IF Fault("carry") THEN <<Sum3(t[1], One3)>> ELSE Add64(t[1], One3)
          IN IF u = <<>> THEN <<>> ELSE <<Time(u[1], n - B)>>
DSub(x, d) ==
  LET t == Sub64(Sec(x), Sec(d))
  IN IF t = <<>> THEN <<>>
     ELSE IF x[4] >= d[4] THEN <<Time(t[1], x[4] - d[4])>>
     ELSE LET u == Sub64(t[1], One3)
          IN IF u = <<>> THEN (IF Fault("borrow") THEN <<TZero>> ELSE <<>>) ELSE <<Time(u[1], x[4] + B - d[4])>>
\* derived, field by field
DCmp(x, y) ==
  LET lt == \E k \in 1..4 : x[k] < y[k] /\ \A j \in 1..(k - 1) : x[j] = y[j]
  IN Cmp(IF Fault("seconds") THEN SLess(Sec(x), Sec(y)) ELSE lt, x = y)

\* a date: milliseconds, signed; as a distance from far before the epoch
Off == <<0, 1000000, 0, 0>>
Ms(v) == IF v[1] = 1 THEN TSub(Off, v[2]) ELSE TAdd(Off, v[2])
Date(m) == IF TLt(m, Off) THEN <<1, TSub(Off, m)>> ELSE <<0, TSub(m, Off)>>
Millis(d) == IF Fault("roundup") THEN TCeilMs(d) ELSE TFloorMs(d)
MAdd(y, d) == Date(TAdd(Ms(y), Millis(d)))
MSub(y, d) == Date(TSub(Ms(y), Millis(d)))
MDiff(y, z) == LET p == Ms(y)
                   q == Ms(z)
               IN IF TLt(p, q) THEN <<IF Fault("distance") THEN 0 ELSE 1, TSub(q, p)>> ELSE <<0, TSub(p, q)>>

\* the visitor: what it has of the fields f[k..], <<>> for an error
Number(f, lim) == IF f[2] = "num" /\ ~SLess(lim, f[3]) THEN <<f[3]>> ELSE <<>>
Duration(sec, nan) ==
  LET up == nan[2]     \* nan is below 5*10^9: whole seconds and the rest
      t == Add64(sec, <<0, 0, up>>)
  IN IF t = <<>> THEN (IF Fault("wrap") THEN <<Time(Sum3(sec, <<0, 0, up>>), nan[3])>> ELSE <<>>) ELSE <<Time(t[1], nan[3])>>
RECURSIVE Visit(_, _, _, _)
Visit(f, k, sec, nan) ==
  IF k > Len(f) THEN
    (IF sec = <<>> THEN <<>>
     ELSE IF nan = <<>> THEN (IF Fault("missing") THEN Duration(sec[1], <<0, 0, 0>>) ELSE <<>>)
     ELSE Duration(sec[1], nan[1]))
  ELSE CASE f[k][1] = "secs_since_epoch" ->
              LET v == Number(f[k], U64) IN IF sec # <<>> \/ v = <<>> THEN <<>> ELSE Visit(f, k + 1, v, nan)
         [] f[k][1] = "nanos_since_epoch" ->
              LET v == Number(f[k], U32) IN IF (nan # <<>> /\ ~Fault("duplicate")) \/ v = <<>> THEN <<>> ELSE Visit(f, k + 1, sec, v)
         [] OTHER -> IF Fault("unknown") THEN Visit(f, k + 1, sec, nan) ELSE <<>>
Read(form, f) ==
  LET d == IF form = "map" THEN Visit(f, 1, <<>>, <<>>)
           ELSE IF Len(f) < 2 THEN <<>>
           ELSE LET p == Number(f[1], U64)
                    q == Number(f[2], U32)
                IN IF p = <<>> \/ q = <<>> THEN <<>> ELSE Duration(p[1], q[1])
  \* beyond the range of dates: whatever comes of it
  IN IF d = <<>> THEN <<>> ELSE IF TLt(YearDates, d[1]) THEN <<0, TZero>> ELSE <<0, Millis(d[1])>>

-----------------------------------------------------------------------------
(* The clock: what it read when it was last paused, and the host's reading   *)
(* when it was last resumed                                                  *)

Clock0 == [base |-> TZero, unf |-> TZero, paused |-> FALSE]
Reading(c, hh) == IF c.paused THEN c.base ELSE TAdd(c.base, TSub(hh, c.unf))
ClockAfter(op, c, hh) ==
  CASE op[1] = "pa" -> [c EXCEPT !.base = Reading(c, hh), !.paused = TRUE]
    [] op[1] = "ad" -> [c EXCEPT !.base = TAdd(@, op[2])]
    [] op[1] = "re" -> [c EXCEPT !.unf = hh, !.paused = FALSE]
    [] OTHER -> c

-----------------------------------------------------------------------------
(* What an operation gives: <<result, panicked>>                             *)

Of(r, op) == <<r, IF r = <<>> /\ op > 1 THEN 1 ELSE 0>>
Result(op, st, hh, ho, da) ==
  LET o == op[1]
  IN CASE o = "xs" -> << <<op[3]>>, 0 >>
       [] o = "xn" -> << <<hh>>, 0 >>
       [] o = "xa" -> Of(IF op[2] \in {0, 2, 4} THEN DAdd(st.x[op[4]], op[5]) ELSE DSub(st.x[op[4]], op[5]), op[2])
       [] o = "xd" -> LET d == DSub(st.x[op[3]], st.x[op[4]])
                      IN << IF d = <<>> /\ op[2] # 0 THEN <<TZero>> ELSE d, 0 >>
       [] o = "xc" -> << DCmp(st.x[op[2]], st.x[op[3]]), 0 >>
       [] o = "xe" -> LET d == DSub(IF Fault("hostelapsed") THEN ho ELSE hh, st.x[op[2]]) IN << IF d = <<>> THEN <<TZero>> ELSE d, 0 >>
       [] o = "ad" -> << <<1>>, 0 >>
       [] o = "ye" -> << <<0, TZero>>, 0 >>
       [] o = "yn" -> << da, 0 >>
       [] o = "ya" -> << IF op[2] \in {0, 2, 4} THEN MAdd(st.y[op[4]], op[5]) ELSE MSub(st.y[op[4]], op[5]), 0 >>
       [] o = "yd" -> << MDiff(st.y[op[2]], st.y[op[3]]), 0 >>
       [] o = "yl" -> << MDiff(da, st.y[op[2]]), 0 >>
       [] o = "yc" -> << DCmp(Ms(st.y[op[2]]), Ms(st.y[op[3]])), 0 >>
       [] o = "yz" -> LET d == MDiff(st.y[op[2]], <<0, TZero>>)
                      IN << IF d[1] = 1 THEN <<0>> ELSE <<1, d[2], 1>>, 0 >>
       [] o = "yx" -> << Read(op[3], op[4]), 0 >>
       [] OTHER -> << <<>>, 0 >>

Event(op, r, hh, ho, da) ==
  LET args == CASE op[1] \in {"host", "date"} -> <<>>
                [] OTHER -> SubSeq(op, 2, Len(op))
  IN [o |-> op[1], a |-> args, r |-> r[1], p |-> r[2], wk |-> <<>>, el |-> <<>>, arm |-> <<>>, dis |-> <<>>, rx |-> <<>>,
      now |-> hh, host |-> ho, dt |-> da]

-----------------------------------------------------------------------------
(* The grid                                                                  *)

N9 == 999999999
\* seconds at which some representation ends
Secs == {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 2, 147483647>>, <<0, 2, 147483648>>, <<0, 4, 294967295>>, <<0, 4, 294967296>>,
         <<0, 0, N9>>, <<0, 1, 0>>, <<0, N9, N9>>, <<1, 0, 0>>, <<0, 9007199, 254740991>>, <<0, 9007199, 254740992>>,
         <<9, 223372036, 854775807>>, <<9, 223372036, 854775808>>, <<18, 446744073, 709551614>>, U64}
Times == {Time(p, n) : p \in Secs, n \in {0, N9}}
         \cup {Time(p, n) : p \in {<<0, 0, 0>>, <<0, 0, 1>>, U64}, n \in {1, 999, 1000, 999999, 1000000, 500000000, 999999998}}
MoreTimes == {Time(p, n) : p \in Secs, n \in {1, 500000000, 999999998}}
Grid == IF Dense THEN Times \cup MoreTimes ELSE Times

\* milliseconds from the epoch
Days == {TMs(1), TMs(999), TSec(1), TMs(1001), TMs(2147483647), <<0, 0, 2147483, 648000000>>, <<0, 0, 4294967, 295000000>>, <<0, 0, 4294967, 296000000>>,
         <<0, 1, 700000000, 123000000>>, <<0, 2, 147483648, 0>>, <<0, 8639, N9, 999000000>>, <<0, 8640, 0, 0>>}
MoreDays == IF Dense THEN {TMs(2), TMs(998), TMs(1000), TMs(1999), TMs(2147483646), <<0, 0, 1048576, 0>>, <<0, 0, 2147483647 \div 4, 0>>, <<0, 8639, N9, 0>>, <<0, 5000, 0, 1000000>>} ELSE {}
Dats == {<<0, TZero>>} \cup {<<g, d>> : g \in {0, 1}, d \in Days \cup MoreDays}
Durs == Days \cup MoreDays \cup {TZero, TNs(1), TNs(999999), TNs(1000001), TNs(1999999), TNs(N9), <<0, 0, 5, 1>>, <<0, 1, 700000000, 123999999>>}

\* the fields of documents
Num(v) == <<"num", v>>
Zero3 == <<0, 0, 0>>
Values == {Num(Zero3), Num(<<0, 0, 1500000>>), Num(<<0, 0, N9>>), Num(<<0, 1, 0>>), Num(<<0, 1, 1000000>>), Num(U32), Num(<<0, 4, 294967296>>),
           Num(<<18, 446744073, 709551611>>), Num(<<18, 446744073, 709551612>>), Num(U64), Num(<<18, 446744073, 709551616>>)}
          \cup {<<k, Zero3>> : k \in {"str", "neg", "float", "null"}}
Fields == {<<n, v[1], v[2]>> : n \in {"secs_since_epoch", "nanos_since_epoch"}, v \in Values}
          \cup {<<"x", "num", <<0, 0, 1>> >>, <<"", "str", Zero3>>, <<"nanos", "num", Zero3>>}
Plain == {<<n, "num", <<0, 0, 7000000>> >> : n \in {"secs_since_epoch", "nanos_since_epoch", "x"}}
\* form and way: a text, names as bytes, names as strings, a sequence as text, a sequence of values
Ways == {<<"map", 0>>, <<"map", 1>>, <<"map", 2>>, <<"seq", 0>>, <<"seq", 3>>}

\* when the host's clock is read
Readings == {Time(<<0, 0, 0>>, n) : n \in {0, 1000, 999000, 1000000, 999999000}} \cup {Time(<<0, 0, p>>, n) : p \in {1, 2147, 4294, 86400, 2147483}, n \in {0, 1000, 483648000, 967296000}}

\* how far the frozen clock is moved
Steps == {TNs(1), TNs(999), TNs(1000001), Time(<<0, 0, 4294>>, 967296001)}
         \cup (IF Dense THEN {TZero, TMs(1), TSec(1), Time(<<0, 1, 0>>, N9), Time(<<1, 0, 0>>, 0)} ELSE {})

Cases == CASE Kind = "instants" -> Grid \X Grid
           [] Kind = "clock" -> {<<1, c[1], c[2]>> : c \in {c \in Readings \X Readings : TLeq(c[1], c[2])}}
                                \cup {<<2, c[1], c[2], d>> : c \in {c \in Readings \X Readings : TLeq(c[1], c[2])}, d \in Steps}
           [] Kind = "dates" -> {<<1, u, v>> : u \in Dats, v \in Dats} \cup {<<2, u, d>> : u \in Dats, d \in Durs}
           [] OTHER -> Ways \X ({<<>>} \cup {<<f>> : f \in Fields \cup Plain}
                               \cup (IF Dense THEN Fields \X Fields ELSE Plain \X Plain))

\* the first, in some order, of the elements of a set
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})

RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))

Put1(k, v) == << <<"ye", k>>, <<"ya", IF v[1] = 1 THEN 3 ELSE 2, k, k, v[2]>> >>
\* a document, and those with a field more
Docs(p) == <<p>> \o Listed({Append(p, f) : f \in IF Len(p) = 2 /\ ~Dense THEN Plain ELSE Fields})

Plan(c) ==
  CASE Kind = "instants" ->
         LET u == c[1]
             v == c[2]
             more == DAdd(u, v) # <<>>
             less == DSub(u, v) # <<>>
         IN << <<"xs", 1, u>>, <<"xs", 2, v>> >>
            \o << <<"xa", 0, 3, 1, v>> >> \o (IF more THEN << <<"xd", 0, 3, 1>>, <<"xd", 2, 1, 3>>, <<"xc", 3, 1>>, <<"xa", 1, 4, 3, v>>, <<"xc", 4, 1>> >> ELSE <<>>)
            \o << <<"xa", 1, 3, 1, v>> >> \o (IF less THEN << <<"xd", 0, 1, 3>>, <<"xc", 3, 1>>, <<"xa", 0, 4, 3, v>>, <<"xc", 4, 1>> >> ELSE <<>>)
            \o [k \in 1..4 |-> <<"xd", k - 1, 1, 2>>]
            \o << <<"xc", 1, 2>> >>
            \o [k \in 1..4 |-> <<"xa", k + 1, 3, 1, v>>]
    [] Kind = "clock" /\ c[1] = 1 ->
         << <<"host", c[2]>>, <<"xn", 1>>, <<"xe", 1>>, <<"host", c[3]>>, <<"xe", 1>>, <<"xn", 2>>, <<"xd", 0, 2, 1>>, <<"xd", 1, 1, 2>>, <<"xc", 1, 2>>,
            <<"xs", 3, c[2]>>, <<"xe", 3>>, <<"xs", 4, TAdd(c[3], TNs(999))>>, <<"xe", 4>>, <<"xs", 5, TAdd(c[3], TSec(1))>>, <<"xe", 5>> >>
    [] Kind = "clock" ->
         << <<"host", c[2]>>, <<"xn", 1>>, <<"pa">>, <<"xe", 1>>, <<"host", c[3]>>, <<"xe", 1>>, <<"xn", 2>>, <<"xc", 1, 2>>, <<"ad", c[4]>>,
            <<"xe", 1>>, <<"xe", 2>>, <<"xn", 3>>, <<"xd", 0, 3, 2>>, <<"xs", 4, TAdd(c[2], TNs(1))>>, <<"xe", 4>>, <<"re">>, <<"xe", 3>>, <<"xe", 2>>,
            <<"host", TAdd(c[3], TMs(7))>>, <<"xe", 3>>, <<"xn", 5>>, <<"xd", 0, 5, 3>>, <<"xe", 4>>, <<"pa">>, <<"ad", c[4]>>, <<"xe", 5>>, <<"xe", 1>> >>
    [] Kind = "dates" /\ c[1] = 1 ->
         Put1(1, c[2]) \o Put1(2, c[3]) \o << <<"yd", 1, 2>>, <<"yc", 1, 2>>, <<"date", c[3]>>, <<"yl", 1>>, <<"yn", 3>>, <<"yc", 3, 2>>, <<"yd", 3, 1>> >>
    [] Kind = "dates" ->
         Put1(1, c[2]) \o Cat([k \in 1..6 |-> << <<"ya", k - 1, 3, 1, c[3]>>, <<"yd", 3, 1>>, <<"yc", 1, 3>> >>])
    [] OTHER ->
         \* what is read back, and written again
         LET docs == Docs(c[2])
         IN Cat([k \in 1..Len(docs) |->
              << <<"yx", 1, c[1][1], docs[k], c[1][2]>> >>
              \o (IF Meaning(c[1][1], docs[k]) \in {<<>>, Unspecified} THEN <<>> ELSE << <<"yz", 1, k % 3>> >>)])

-----------------------------------------------------------------------------

Init == /\ case \in Cases
        /\ plan = Plan(case)
        /\ i = 0
        /\ s = Init0(1, TZero, TZero)
        /\ h = TZero
        /\ ck = Clock0
        /\ dt = <<0, TZero>>
        /\ bad = {}

Next == /\ i < Len(plan)
        /\ i' = i + 1
        /\ case' = case /\ plan' = plan
        /\ Record /\ i = 0 => PrintT(<<"SCHEDULE", ToJson(plan)>>)
        /\ LET op == plan[i + 1]
           IN /\ h' = IF op[1] = "host" THEN op[2] ELSE h
              /\ ck' = ClockAfter(op, ck, h)
              /\ dt' = IF op[1] = "date" THEN op[2] ELSE dt
              /\ IF op[1] = "date" THEN s' = s /\ bad' = {}
                 ELSE LET j == Judge(s, Event(op, Result(op, s, Reading(ck, h), h, dt), Reading(ck', h'), h', dt))
                      IN s' = j.st /\ bad' = j.bad

Spec == Init /\ [][Next]_<<case, plan, i, s, h, ck, dt, bad>>
View == <<case, i, bad>>

Refines == bad = {}

=============================================================================
