----------------------------- MODULE WasmTimer -----------------------------
(***************************************************************************)
(* The contract of wasmtimer: the abstract state of everything a user of   *)
(* the crate, and the JavaScript host under it, can observe, and for each  *)
(* observable step (a call of the public API, a host callback, a move of   *)
(* the host clock) how that state changes and what the step may show.      *)
(*                                                                         *)
(* A step is an event record e:                                            *)
(*   o, a, r   operation, arguments, result                                *)
(*   p         0 returned, 1 panicked, 2 hung                              *)
(*   now, host the library's and the host's clock after the step           *)
(*   wk        the wakers woken during the step, in order                  *)
(*   el        the live sleeps that say they have elapsed, after the step  *)
(*   arm       host callbacks requested during the step <<id, delay, due>> *)
(*   rx        what wakers that run their task at once did in the step     *)
(*   hw        (where recorded) the wakers of which someone keeps a clone  *)
(*                                                                         *)
(* Step(s, e) is the state after e; Violations(s, e) is the set of         *)
(* guards that e breaks in s, each <<property, reason, object>>. The same   *)
(* two operators judge the executions recorded from the real code          *)
(* (Trace.tla) and, exhaustively, the design model (Impl.tla,              *)
(* Design.tla), which produces the same events.                            *)
(***************************************************************************)
EXTENDS TimeLimbs, FiniteSets, TLC

CONSTANT Enforce     \* the properties whose guards are in force

On(props) == props \cap Enforce # {}

ToSet(q) == {q[i] : i \in 1..Len(q)}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> 0]
\* before every instant
Never == <<-1, 0, 0, 0>>

ValueOps == {"xn", "xs", "xa", "xd", "xc", "xe", "yn", "ye", "ya", "yd", "yl", "yc", "yz", "yx"}
HostOps == {"host", "cb"}

\* The state before anything happened. min: the host's least delay in ms.
Init0(min, now, host) ==
  [ now |-> now, host |-> host, min |-> min, slack |-> TMs(min + 1),
    paused |-> FALSE, sync |-> FALSE, everp |-> FALSE, settled |-> TRUE,
    rb |-> now, rh |-> host, res |-> TZero, cut |-> Never,
    arm |-> Empty, sl |-> Empty, el |-> {}, iv |-> Empty, to |-> Empty, q |-> Empty,
    x |-> Empty, y |-> Empty,
    pass |-> Empty, gone |-> Empty, mem |-> <<>>, spare |-> now,
    cnt |-> 0, idle |-> host, req |-> {}, reqx |-> 0, touched |-> FALSE, ended |-> FALSE ]

-----------------------------------------------------------------------------
(* When a deadline has to be noticed. settled: no callback that is due is   *)
(* waiting to be run by the host.                                           *)

SyncDue(s, dl) == s.paused /\ s.sync /\ TLeq(dl, s.now)
\* What was due by s.cut has to have been noticed: everything, under the frozen
\* clock; what has been due and known for the slack, while the clock runs.
Cut(s) ==
  IF s.paused THEN (IF s.sync THEN s.now ELSE Never)
  ELSE IF s.settled /\ TLeq(TAdd(s.res, s.slack), s.now) THEN TSub(s.now, s.slack) ELSE Never
Must(s, dl, base) == TLeq(dl, s.cut) /\ (s.paused \/ TLeq(base, s.cut))

\* a deadline and what set it are both old enough
Overdue(s, dl, base) == Must(s, dl, base)
NoCallbackBy(arm, t) == \A c \in DOMAIN arm : TLt(t, arm[c])

-----------------------------------------------------------------------------
(* The effect of an operation on the objects, before observation            *)

\* an absolute deadline, or one a duration from now; unrepresentable: never
Abs(t) == t
Rel(s, d) == LET t == TAdd(s.now, d) IN IF TFits(t) THEN t ELSE TInf

NewSleep(s, dl, rst) == [dl |-> dl, base |-> s.now, wk |-> 0, rst |-> rst]

IvNext(v, t, now, nx) ==
  LET lim(x) == IF TFits(x) THEN x ELSE TInf
  IN IF ~TLt(TAdd(t, TMs(5)), now) THEN lim(TAdd(t, v.per))
     ELSE CASE v.beh = 0 -> lim(TAdd(t, v.per))
            [] v.beh = 1 -> lim(TAdd(now, v.per))
            [] OTHER -> lim(nx)

\* the deadline a queue gives a request: whole milliseconds since its creation
QDl(q, t) == IF TLeq(t, q.start) THEN q.start ELSE TAdd(q.start, TCeilMs(TSub(t, q.start)))
QItem(s, q, val, form, t) ==
  LET d == QDl(q, IF form = 0 THEN TAdd(s.now, t) ELSE t)
  IN [val |-> val, d |-> d, hi |-> TMaxOf(d, s.now), base |-> s.now]
\* without key k
QOut(s, q, k) ==
  LET it == Del(q.items, k)
  IN [q EXCEPT !.items = it, !.ebase = IF DOMAIN it = {} THEN s.now ELSE @, !.spin = 0]
QTaken(s, q, r) == IF r[1] = 1 /\ r[2] \in DOMAIN q.items THEN QOut(s, q, r[2]) ELSE q

\* some item could have been delivered a good while ago
QLate(s, q) == ~s.paused /\ \E k \in DOMAIN q.items : Overdue(s, q.items[k].d, q.items[k].base)

Apply(s, e) ==
  LET a == e.a
      r == e.r
  IN CASE e.o = "sn" -> [s EXCEPT !.sl = Put(@, a[1], NewSleep(s, Rel(s, a[2]), FALSE))]
       [] e.o = "su" -> [s EXCEPT !.sl = Put(@, a[1], NewSleep(s, a[2], FALSE))]
       [] e.o = "sp" -> [s EXCEPT !.sl[a[1]].wk = IF r[1] = 1 THEN 0 ELSE a[2]]
       [] e.o \in {"sr", "sb"} ->
            [s EXCEPT !.sl[a[1]] = [@ EXCEPT !.dl = a[2], !.base = s.now, !.rst = TRUE], !.touched = TRUE,
                      !.el = @ \ {a[1]}]
       [] e.o = "sd" -> [s EXCEPT !.sl = Del(@, a[1]), !.touched = TRUE, !.el = @ \ {a[1]}]
       \* intervals
       [] e.o = "in" -> [s EXCEPT !.iv = Put(@, a[1],
            [dl |-> s.now, base |-> s.now, per |-> a[2], beh |-> 0, wk |-> 0, src |-> "C05"])]
       [] e.o = "ia" -> [s EXCEPT !.iv = Put(@, a[1],
            [dl |-> a[2], base |-> s.now, per |-> a[3], beh |-> 0, wk |-> 0, src |-> "C05"])]
       [] e.o = "ip" ->
            IF r = <<>> THEN [s EXCEPT !.iv[a[1]].wk = a[2]]
            ELSE [s EXCEPT !.iv[a[1]] = [@ EXCEPT
                    !.dl = IvNext(s.iv[a[1]], s.iv[a[1]].dl, s.now, e.nx), !.base = s.now, !.wk = 0,
                    !.src = IF TLt(TAdd(s.iv[a[1]].dl, TMs(5)), s.now) THEN "C06" ELSE "C05"]]
       [] e.o = "ir" -> [s EXCEPT !.iv[a[1]] = [@ EXCEPT !.dl = Rel(s, s.iv[a[1]].per), !.base = s.now, !.src = "C05"]]
       [] e.o = "ib" -> [s EXCEPT !.iv[a[1]].beh = a[2]]
       [] e.o = "iD" -> [s EXCEPT !.iv = Del(@, a[1])]
       \* timeouts
       [] e.o = "tn" -> [s EXCEPT !.to = Put(@, a[1],
            [dl |-> IF a[2] = 0 THEN Rel(s, a[3]) ELSE a[3], base |-> s.now, kind |-> a[4], rdy |-> FALSE, val |-> 0,
             idl |-> IF a[4] = 0 THEN TInf ELSE Rel(s, a[5]), wk |-> 0, ws |-> {}, iw |-> 0, done |-> FALSE])]
       [] e.o = "tp" ->
            IF r[1] # 0 THEN [s EXCEPT !.to[a[1]] = [@ EXCEPT !.done = TRUE, !.wk = 0, !.ws = @ \cup {a[2]}]]
            ELSE [s EXCEPT !.to[a[1]] = [@ EXCEPT !.wk = a[2], !.ws = {a[2]}, !.iw = a[2]]]
       [] e.o = "tc" -> [s EXCEPT !.to[a[1]] = [@ EXCEPT !.rdy = TRUE, !.val = a[2]]]
       [] e.o \in {"td", "ti"} -> [s EXCEPT !.to = Del(@, a[1])]
       \* delay queues
       [] e.o = "qn" -> [s EXCEPT !.q = Put(@, a[1],
            [start |-> s.now, items |-> Empty, wk |-> 0, parked |-> FALSE, pbase |-> s.now, ebase |-> s.now,
             ws |-> {}, rsv |-> IF a[2] = 2 THEN a[3] ELSE 0, spin |-> 0, spt |-> s.now, hz |-> s.now])]
       [] e.o = "qi" -> [s EXCEPT !.q[a[1]].items = Put(@, r[1], QItem(s, s.q[a[1]], a[3], a[2], a[4]))]
       [] e.o = "qr" ->
            [s EXCEPT !.q[a[1]].items[a[3]] = QItem(s, s.q[a[1]], @.val, a[2], a[4])]
       [] e.o \in {"qm", "qt"} -> [s EXCEPT !.q[a[1]] = QTaken(s, @, r)]
       [] e.o = "qp" ->
            LET q == s.q[a[1]]
                q1 == [q EXCEPT !.ws = IF r[1] = 2 THEN {a[2]} ELSE @ \cup {a[2]}, !.wk = a[2], !.parked = r[1] = 2, !.pbase = s.now]
            IN [s EXCEPT !.q[a[1]] =
                 IF r[1] = 1 THEN [QTaken(s, q1, r) EXCEPT !.hz = TMaxOf(@, r[4])]
                 ELSE IF r[1] # 2 THEN q1
                 ELSE IF ~QLate(s, q) THEN [q1 EXCEPT !.spin = 0]
                 ELSE IF q.spin = 0 \/ TLeq(TAdd(q.spt, s.slack), s.now) THEN [q1 EXCEPT !.spin = @ + 1, !.spt = s.now]
                 ELSE q1]
       [] e.o = "qc" -> [s EXCEPT !.q[a[1]] = [@ EXCEPT !.items = Empty, !.ebase = s.now, !.spin = 0, !.hz = s.q[a[1]].start]]
       [] e.o \in {"qk", "qs"} -> [s EXCEPT !.q[a[1]].rsv = 0]
       [] e.o = "qv" -> [s EXCEPT !.q[a[1]].rsv =
            LET n == Cardinality(DOMAIN s.q[a[1]].items) + a[2] IN IF n > @ THEN n ELSE @]
       [] e.o = "qd" -> [s EXCEPT !.q = Del(@, a[1])]
       \* the test clock
       [] e.o = "pa" -> [s EXCEPT !.paused = TRUE, !.everp = TRUE]
       [] e.o = "re" -> [s EXCEPT !.paused = FALSE, !.sync = FALSE]
       [] OTHER -> s

\* the deadlines an operation asked for
Requested(s, s1, e) ==
  CASE e.o \in {"sn", "su", "sr", "sb"} -> {s1.sl[e.a[1]].dl}
    [] e.o \in {"in", "ia", "ip", "ir"} -> {s1.iv[e.a[1]].dl}
    [] e.o = "tn" -> {s1.to[e.a[1]].dl, s1.to[e.a[1]].idl}
    [] e.o = "qi" -> {s1.q[e.a[1]].items[e.r[1]].d}
    [] e.o = "qr" -> {s1.q[e.a[1]].items[e.a[3]].d}
    [] OTHER -> {}

\* Wakers that run their task at once dropped, created and reset sleeps
\* meanwhile; wakers that kept a task with a sleep were released.
RECURSIVE React(_, _, _)
React(s, rx, i) ==
  IF i > Len(rx) THEN s
  ELSE LET x == rx[i]
           s1 == IF x[2] # 0 THEN [s EXCEPT !.sl = Del(@, x[2]), !.touched = TRUE] ELSE s
           s2 == IF x[3] # 0 THEN [s1 EXCEPT !.sl = Put(@, x[3], NewSleep(s1, TAdd(s1.now, x[4]), FALSE)),
                                             !.req = IF On({"C04"}) THEN @ \cup {TAdd(s1.now, x[4])} ELSE @] ELSE s1
           s3 == IF x[6] # 0 THEN [s2 EXCEPT !.sl[x[6]] = [@ EXCEPT !.dl = TAdd(s2.now, x[4]), !.base = s2.now, !.rst = TRUE], !.touched = TRUE,
                                             !.req = IF On({"C04"}) THEN @ \cup {TAdd(s2.now, x[4])} ELSE @] ELSE s2
       IN React(s3, rx, i + 1)

RECURSIVE Arm(_, _, _)
Arm(arm, l, i) == IF i > Len(l) THEN arm ELSE Arm(Put(arm, l[i][1], l[i][3]), l, i + 1)

Dropped(e) == {e.rx[i][2] : i \in 1..Len(e.rx)} \ {0}
Moved(e) == {e.rx[i][6] : i \in 1..Len(e.rx)} \ {0}

\* The clocks, the host's callbacks, and the wakes
Observe(s, s1, e) ==
  LET w == ToSet(e.wk)
      el == ToSet(e.el)
      arm1 == IF e.o = "cb" THEN Del(s.arm, e.a[1]) ELSE s.arm
      arm2 == IF "dis" \in DOMAIN e THEN [c \in DOMAIN arm1 \ ToSet(e.dis) |-> arm1[c]] ELSE arm1
      arm3 == Arm(arm2, e.arm, 1)
      \* (only the count of callbacks needs them)
      req1 == IF On({"C04"}) THEN s1.req \cup Requested(s, s1, e) ELSE {}
      req2 == IF e.now = s.now /\ req1 = s.req THEN req1 ELSE {d \in req1 : TLt(e.now, d)}
      active == e.o \notin HostOps
      passed == e.now # s.now /\ \E d \in s.req : TLeq(d, e.now)
      s2 == React([s1 EXCEPT !.now = e.now, !.host = e.host, !.req = req2,
                     \* a waker may serve several: only what it can have been woken for is done with
                     !.sl = IF w = {} THEN @ ELSE [k \in DOMAIN @ |->
                         IF @[k].wk \in w /\ (k \in el \/ (k \in Moved(e) /\ TLeq(@[k].dl, e.now)))
                         THEN [@[k] EXCEPT !.wk = 0] ELSE @[k]],
                     !.iv = IF w = {} THEN @ ELSE [k \in DOMAIN @ |->
                         IF @[k].wk \in w /\ TLeq(@[k].dl, e.now) THEN [@[k] EXCEPT !.wk = 0] ELSE @[k]],
                     !.to = IF w = {} THEN @ ELSE [k \in DOMAIN @ |->
                         IF @[k].wk \in w /\ (@[k].rdy \/ TLeq(@[k].dl, e.now) \/ TLeq(@[k].idl, e.now))
                         THEN [@[k] EXCEPT !.wk = 0] ELSE @[k]],
                     !.q = IF w = {} THEN @ ELSE [k \in DOMAIN @ |-> IF @[k].wk \in w THEN [@[k] EXCEPT !.parked = FALSE] ELSE @[k]]],
                  e.rx, 1)
      soon == TAdd(e.host, s.slack)
      s3 == [s2 EXCEPT
        !.el = el, !.arm = arm3,
        !.settled = ~s1.paused /\ NoCallbackBy(arm3, e.host),
        !.sync = s1.paused /\ (s1.sync \/ NoCallbackBy(arm3, soon)),
        !.rb = IF e.o \in {"pa", "ad", "re"} THEN e.now ELSE @,
        !.rh = IF e.o \in {"pa", "ad", "re"} THEN e.host ELSE @,
        !.res = IF e.o = "re" THEN e.now ELSE @,
        !.reqx = IF e.o = "sb" THEN @ + e.a[3] ELSE IF e.o = "ch" THEN @ + e.a[2] ELSE IF req2 = {} THEN 0 ELSE @,
        !.idle = IF active \/ passed THEN e.host ELSE @,
        !.cnt = IF active \/ passed THEN 0 ELSE IF e.o = "cb" THEN @ + 1 ELSE @]
  IN [s3 EXCEPT !.cut = Cut(s3)]

Objects(s) == Cardinality(DOMAIN s.sl) + Cardinality(DOMAIN s.iv) + Cardinality(DOMAIN s.to) + Cardinality(DOMAIN s.q)
              + Cardinality(UNION {{<<k, i>> : i \in DOMAIN s.q[k].items} : k \in DOMAIN s.q})

-----------------------------------------------------------------------------
(* What may be kept. pass: the wakers that each live object may keep, the   *)
(* one of its last pending poll and those of later polls; gone: when a      *)
(* waker that is not among them was last; spare: when something was last    *)
(* dropped; mem: what was in use, and how many objects were there, first.   *)

Polls == {"sp", "ip", "tp", "qp"}
Pending(e) == CASE e.o = "sp" -> e.r[1] = 0 [] e.o = "ip" -> e.r = <<>> [] e.o = "tp" -> e.r[1] = 0 [] OTHER -> e.r[1] = 2
Drops == {"sd", "iD", "td", "ti", "qd"}
Keep(s, e, t) ==
  LET dead == Dropped(e) \cup (IF e.o \in Drops THEN {e.a[1]} ELSE {})
      old == UNION {s.pass[k] : k \in dead \cap DOMAIN s.pass} \cup
             (IF e.o \in Polls /\ e.a[1] \in DOMAIN s.pass /\ Pending(e) THEN s.pass[e.a[1]] ELSE {}) \cup
             (IF e.o = "ti" THEN {e.a[2]} ELSE IF e.o = "ch" THEN {e.a[5]} ELSE {})
      p1 == [k \in DOMAIN s.pass \ dead |-> s.pass[k]]
      p2 == IF e.o \notin Polls THEN p1
            ELSE Put(p1, e.a[1], {e.a[2]} \cup (IF Pending(e) \/ e.a[1] \notin DOMAIN p1 THEN {} ELSE p1[e.a[1]]))
  IN [t EXCEPT !.pass = p2,
               !.gone = [w \in DOMAIN @ \cup old |-> IF w \in old THEN t.now ELSE @[w]],
               !.spare = IF dead # {} \/ e.o \in {"ch", "sr", "sb", "ir", "ip", "qm", "qt", "qr", "qp", "qc"} THEN t.now ELSE @,
               !.mem = IF e.o = "mm" /\ @ = <<>> THEN <<e.r[1], Objects(t)>> ELSE @]

-----------------------------------------------------------------------------
(* Values: instants are times since the origin, at which the host clock     *)
(* read zero; system times are signed distances to the epoch.               *)

SNeg(v) == IF v[2] = TZero THEN v ELSE <<1 - v[1], v[2]>>
SAdd(u, v) ==
  IF u[1] = v[1] THEN <<u[1], TAdd(u[2], v[2])>>
  ELSE IF TLeq(v[2], u[2]) THEN (IF u[2] = v[2] THEN <<0, TZero>> ELSE <<u[1], TSub(u[2], v[2])>>)
  ELSE <<v[1], TSub(v[2], u[2])>>
SDiff(u, v) == SAdd(u, SNeg(v))
SLt(u, v) == SDiff(u, v)[1] = 1
\* within 2^53 ms, as far as the host's numbers count milliseconds exactly
Dates(v) == TLeq(v[2], <<0, 9007, 199254740, 992000000>>)
Cmp(lt, eq) == IF eq THEN <<1, 1, 1, 0, 1, 0, 1>> ELSE IF lt THEN <<0, 0, 0, 1, 1, 0, 0>> ELSE <<2, 2, 0, 0, 0, 1, 1>>

\* checked_add, checked_sub, +, -, +=, -=: <<>> stands for unrepresentable
XArith(op, x, d) ==
  IF op \in {0, 2, 4} THEN (IF TFits(TAdd(x, d)) THEN <<TAdd(x, d)>> ELSE <<>>)
  ELSE (IF TLeq(d, x) THEN <<TSub(x, d)>> ELSE <<>>)
YArith(op, y, d) == SAdd(y, <<IF op \in {0, 2, 4} \/ TFloorMs(d) = TZero THEN 0 ELSE 1, TFloorMs(d)>>)

\* What a description of a serialized time means: <<>> an error,
\* Unspecified (an amount beyond the range of dates), <<t>> the time.
Whole(f, lim) == f[2] = "num" /\ (f[3][1] < lim[1] \/ (f[3][1] = lim[1] /\ (f[3][2] < lim[2] \/ (f[3][2] = lim[2] /\ f[3][3] <= lim[3]))))
Unspecified == <<TZero, TZero>>
U64 == <<18, 446744073, 709551615>>
U32 == <<0, 4, 294967295>>
Amount(sf, nf) ==
  IF ~(Whole(sf, U64) /\ Whole(nf, U32)) THEN <<>>
  ELSE LET t == TAdd(<<sf[3][1], sf[3][2], sf[3][3], 0>>, <<0, 0, nf[3][2], nf[3][3]>>)
           \* nanoseconds n = n2*10^9 + n3
       IN IF ~TFits(t) THEN <<>>
          ELSE IF TLt(<<0, 8640, 0, 0>>, t) THEN Unspecified ELSE <<TFloorMs(t)>>
Meaning(form, f) ==
  LET sx == {i \in 1..Len(f) : f[i][1] = "secs_since_epoch"}
      nx == {i \in 1..Len(f) : f[i][1] = "nanos_since_epoch"}
  IN IF form = "seq" THEN (IF Len(f) < 2 THEN <<>> ELSE IF Len(f) > 2 THEN Unspecified ELSE Amount(f[1], f[2]))
     ELSE IF Cardinality(sx) # 1 \/ Cardinality(nx) # 1 \/ Len(f) # 2 THEN <<>>
     ELSE Amount(f[CHOOSE i \in sx : TRUE], f[CHOOSE i \in nx : TRUE])

YearDates == <<0, 8640, 0, 0>>   \* 8.64e12 s, the host's range of dates

ApplyValue(s, e) ==
  LET a == e.a
  IN IF e.p # 0 \/ e.r = <<>> THEN s
     ELSE CASE e.o \in {"xn", "xs"} -> [s EXCEPT !.x = Put(@, a[1], e.r[1])]
            [] e.o = "xa" -> [s EXCEPT !.x = Put(@, a[2], e.r[1])]
            [] e.o \in {"yn", "ye"} -> [s EXCEPT !.y = Put(@, a[1], e.r)]
            [] e.o = "ya" -> [s EXCEPT !.y = Put(@, a[2], e.r)]
            [] e.o = "yx" -> [s EXCEPT !.y = Put(@, a[1], e.r)]
            [] OTHER -> s

\* reasons are compared with each other: the object as text
Bad(prop, why, obj) == <<prop, why, ToString(obj)>>
G(ok, prop, why, obj) == IF ok THEN {} ELSE {Bad(prop, why, obj)}

ValueViolations(s, e) ==
  LET a == e.a
      r == e.r
  IN CASE e.o = "xn" -> G(e.p = 0 /\ r = <<s.now>>, "C15", "Instant::now differs from the clock", r)
       [] e.o = "xs" -> G(e.p = 0 /\ r = <<a[2]>>, "C14", "sum with the origin", r)
       [] e.o = "xa" ->
            LET want == XArith(a[1], s.x[a[3]], a[4])
            IN IF want = <<>> /\ a[1] > 1 THEN G(e.p = 1, "C14", "overflow did not panic", r)
               ELSE G(e.p = 0 /\ r = want, "C14", "sum or difference with a duration", <<r, want>>)
       [] e.o = "xd" ->
            LET u == s.x[a[2]]
                v == s.x[a[3]]
            IN G(e.p = 0 /\ r = (IF TLeq(v, u) THEN <<TSub(u, v)>> ELSE IF a[1] = 0 THEN <<>> ELSE <<TZero>>),
                 "C14", "difference of instants", r)
       [] e.o = "xc" -> G(e.p = 0 /\ r = Cmp(TLt(s.x[a[1]], s.x[a[2]]), s.x[a[1]] = s.x[a[2]]), "C14", "comparison", r)
       [] e.o = "xe" -> G(e.p = 0 /\ r = <<TDiff(s.now, s.x[a[1]])>>, "C15", "elapsed", r)
       [] e.o = "yn" -> G(e.p = 0 /\ r = e.dt, "C16", "SystemTime::now differs from the host's date", r)
       [] e.o = "ye" -> G(e.p = 0 /\ r = <<0, TZero>>, "C16", "epoch", r)
       [] e.o = "ya" -> G(e.p = 0 /\ (r = YArith(a[1], s.y[a[3]], a[4]) \/ ~Dates(s.y[a[3]]) \/ ~Dates(<<0, a[4]>>) \/ ~Dates(YArith(a[1], s.y[a[3]], a[4]))), "C16", "sum or difference with a duration", r)
       [] e.o = "yd" -> G(e.p = 0 /\ (r = SDiff(s.y[a[1]], s.y[a[2]]) \/ ~Dates(SDiff(s.y[a[1]], s.y[a[2]]))), "C16", "difference of times", r)
       [] e.o = "yl" -> G(e.p = 0 /\ (r = SDiff(e.dt, s.y[a[1]]) \/ ~Dates(SDiff(e.dt, s.y[a[1]]))), "C16", "elapsed", r)
       [] e.o = "yc" -> G(e.p = 0 /\ r = Cmp(SLt(s.y[a[1]], s.y[a[2]]), s.y[a[1]] = s.y[a[2]]), "C16", "comparison", r)
       [] e.o = "yz" ->
            LET v == s.y[a[1]]
            IN IF v[1] = 1 THEN G(e.p = 0 /\ r = <<0>>, "C17", "a time before the epoch was serialized", r)
               ELSE IF TLt(YearDates, v[2]) THEN G(e.p = 0, "C17", "panic", r)
               ELSE G(e.p = 0 /\ r = <<1, v[2], 1>>, "C17", "serialized form", r)
       [] e.o = "yx" ->
            LET m == Meaning(a[2], a[3])
            IN G(e.p = 0 /\ (IF m = <<>> THEN r = <<>> ELSE IF m = Unspecified THEN TRUE ELSE r = <<0, m[1]>>),
                 "C17", "deserialized", <<r, m>>)
       [] OTHER -> {}

-----------------------------------------------------------------------------
(* The guards. s: state before; s1: operation applied; s2: state after      *)

\* a sleep's guard is a matter of C03 as well once something was reset or
\* dropped, and of C09 when the clock is or was frozen
SleepTags(s2, prop) == {prop} \cup (IF s2.touched THEN {"C03"} ELSE {}) \cup (IF s2.everp THEN {"C09"} ELSE {})
T(tags, bads) == {<<p, b[2], b[3]>> : p \in tags, b \in bads}

SleepGuards(s, s1, s2, e) ==
  LET early == {k \in s2.el : k \in DOMAIN s2.sl /\ TLt(s2.now, s2.sl[k].dl)}
      must == {k \in DOMAIN s2.sl : (k \notin s2.el \/ s2.sl[k].wk # 0) /\ Must(s2, s2.sl[k].dl, s2.sl[k].base)}
      lost == must \ s2.el
      undone == {k \in s1.el \ Moved(e) : k \in DOMAIN s2.sl /\ k \notin s2.el}
      owed == {k \in must : s2.sl[k].wk # 0}
      r == e.r
      id == e.a[1]
  IN UNION {
       T(SleepTags(s2, "C01"), {Bad("", "elapsed before its deadline", k) : k \in early}),
       T(SleepTags(s2, "C02"), {Bad("", "not elapsed after its deadline", k) : k \in lost}),
       T(SleepTags(s2, "C02"), {Bad("", "no longer elapsed", k) : k \in undone}),
       T(SleepTags(s2, "C02"), {Bad("", "waiter not woken at its deadline", k) : k \in owed}),
       IF e.o = "sn" THEN
         T({"C01", "C02"}, IF s2.sl[id].dl = TInf
           THEN G(TLt(TAdd(s.now, TSec(31536000)), r[1]), "", "deadline of an endless sleep", id)
           ELSE G(r[1] = s2.sl[id].dl, "", "reported deadline", id))
       ELSE IF e.o = "su" THEN T({"C01", "C02"}, G(r[1] = e.a[2], "", "reported deadline", id))
       ELSE IF e.o \in {"sr", "sb"} THEN G(r[1] = e.a[2], "C03", "reported deadline after reset", id)
       ELSE IF e.o = "sp" THEN
         IF r[1] = 1 THEN UNION {
            T(SleepTags(s2, "C01"), G(TLeq(s2.sl[id].dl, s2.now), "", "ready before its deadline", id)),
            T(SleepTags(s2, "C01"), G(id \in s2.el, "", "ready but not elapsed", id)) }
         ELSE UNION {
            T(SleepTags(s2, "C02"), G(~Must(s, s.sl[id].dl, s.sl[id].base), "", "pending after its deadline", id)),
            T(SleepTags(s2, "C02"), G(id \notin s.el, "", "pending though elapsed", id)) }
       ELSE {} }

\* every wake has a reason
WakeGuards(s, s1, s2, e) ==
  LET drop == Dropped(e)
      \* judged on the objects after the operation, before the wakes
      bySleep(w) == \E k \in DOMAIN s1.sl : s1.sl[k].wk = w /\ TLeq(s1.sl[k].dl, e.now) /\ (k \in s2.el \/ k \in drop \/ k \in Moved(e))
      byIv(w) == \E k \in DOMAIN s1.iv : s1.iv[k].wk = w /\ TLeq(s1.iv[k].dl, e.now)
      byTo(w) == \E k \in DOMAIN s1.to : w \in s1.to[k].ws /\
                    (s1.to[k].rdy \/ TLeq(s1.to[k].dl, e.now) \/ TLeq(s1.to[k].idl, e.now))
      byQ(w) == \E k \in DOMAIN s1.q : w \in s1.q[k].ws
      odd == {w \in ToSet(e.wk) : ~((e.o = "ch" /\ w = e.a[5]) \/ bySleep(w) \/ byIv(w) \/ byTo(w) \/ byQ(w))}
      \* whose waker it is
      slp(w) == \E k \in DOMAIN s1.sl : s1.sl[k].wk = w
      ivs(w) == {s1.iv[k].src : k \in {j \in DOMAIN s1.iv : s1.iv[j].wk = w}}
      tos(w) == \E k \in DOMAIN s1.to : w \in s1.to[k].ws
  IN UNION { IF slp(w) THEN T(SleepTags(s2, "C01"), {Bad("", "woken before its deadline", w)})
             ELSE IF tos(w) THEN {Bad("C07", "woken without reason", w)}
             ELSE IF ivs(w) # {} THEN {Bad(p, "woken before the tick is due", w) : p \in ivs(w)}
             ELSE {Bad("C03", "a dropped, reset or superseded waiter was woken", w)} : w \in odd }

IvTags(s2, src) == {src} \cup (IF s2.everp THEN {"C09"} ELSE {})
IvGuards(s, s1, s2, e) ==
  LET owed == {k \in DOMAIN s2.iv : s2.iv[k].wk # 0 /\ Must(s2, s2.iv[k].dl, s2.iv[k].base)}
      v == s.iv[e.a[1]]
  IN UNION { UNION {T(IvTags(s2, s2.iv[k].src), {Bad("", "task not woken when the tick is due", k)}) : k \in owed},
       IF e.o = "ip" THEN
         IF e.r = <<>> THEN T(IvTags(s2, v.src), G(~Must(s, v.dl, v.base), "", "tick not delivered", e.a[1]))
         ELSE UNION {
           T({v.src}, G(e.r[1] = v.dl, "", "tick is not the instant due", <<e.a[1], e.r[1], v.dl>>)),
           T({v.src}, G(TLeq(v.dl, s.now), "", "tick before it is due", e.a[1])),
           \* the recorded witness is the first later instant on the grid (checked, not trusted)
           IF TFits(e.nx) THEN
             G(/\ TLt(s.now, e.nx)
               /\ TLeq(TSub(e.nx, v.per), TMaxOf(s.now, e.r[1]))
               /\ e.nx = TAdd(e.r[1], TMulBits(v.per, e.kb)),
               "WITNESS", "recorder", e.a[1])
           ELSE {} }
       ELSE IF e.o = "ii" THEN
         UNION {G(e.r[1] = s.iv[e.a[1]].beh, "C06", "policy in force", e.r), G(e.r[2] = s.iv[e.a[1]].per, "C05", "period", e.r)}
       ELSE {} }

ToTags(s2) == {"C07"} \cup (IF s2.everp THEN {"C09"} ELSE {})
InnerMust(s, t) == IF t.kind = 0 THEN t.rdy ELSE Must(s, t.idl, t.base)
InnerMay(s, t) == IF t.kind = 0 THEN t.rdy ELSE TLeq(t.idl, s.now)
InnerVal(t) == IF t.kind = 0 THEN t.val ELSE 77
ToGuards(s, s1, s2, e) ==
  LET owed == {k \in DOMAIN s2.to : s2.to[k].wk # 0 /\ ~s2.to[k].done /\
                 (Must(s2, s2.to[k].dl, s2.to[k].base) \/ (s2.to[k].kind # 0 /\ Must(s2, s2.to[k].idl, s2.to[k].base)))}
      id == e.a[1]
      t == s.to[id]
      r == e.r
  IN UNION { T(ToTags(s2), {Bad("", "task not woken at the deadline", k) : k \in owed}),
       IF e.o = "tc" THEN G(t.iw = 0 \/ t.iw \in ToSet(e.wk) \/ t.rdy, "C07", "task not woken by the wrapped future", id)
       ELSE IF e.o = "tp" THEN UNION {
         IF t.kind = 0 THEN G(r[3] >= 1, "C07", "wrapped future not polled", id) ELSE {},
         IF r[1] = 1 THEN
           UNION {G(InnerMay(s, t), "C07", "value before the wrapped future is ready", id),
                  G(r[2] = InnerVal(t), "C07", "another value", r)}
         ELSE IF r[1] = 2 THEN
           UNION {G(TLeq(t.dl, s.now), "C07", "elapsed before the deadline", id),
                  G(~InnerMust(s, t), "C07", "elapsed though the wrapped future is ready", id)}
         ELSE
           T(ToTags(s2), G(~InnerMust(s, t), "", "pending though the wrapped future is ready", id) \cup
                         G(~Must(s, t.dl, t.base), "", "pending after the deadline", id)) }
       ELSE IF e.o = "ti" THEN
         IF r[1] = 1 THEN G(InnerMay(s, t) /\ r[2] = InnerVal(t), "C07", "wrapped future altered", id)
         ELSE G(~InnerMust(s, t), "C07", "wrapped future altered", id)
       ELSE {} }

\* what a returned entry reports
QEntry(s, q, r) ==
  IF r[2] \notin DOMAIN q.items THEN {Bad("C10", "an entry that is not in the queue", r), Bad("C13", "an unknown key", r)}
  ELSE LET it == q.items[r[2]]
           base == it.base
       IN UNION {
         G(r[3] = it.val, "C10", "another value", r), G(r[3] = it.val, "C13", "the value of another key", r),
         G(r[4] = it.d \/ (TLt(it.d, r[4]) /\ TLeq(r[4], base)), "C11", "reported deadline", <<r, it.d>>) }
QTags(s2, p) == {p} \cup (IF s2.everp THEN {"C09"} ELSE {})
QGuards(s, s1, s2, e) ==
  LET id == e.a[1]
      q == s.q[id]
      r == e.r
      owed == {k \in DOMAIN s2.q : s2.q[k].parked /\
                 IF s2.q[k].items = Empty THEN Must(s2, s2.q[k].ebase, s2.q[k].ebase)
                 ELSE \E i \in DOMAIN s2.q[k].items :
                        Must(s2, s2.q[k].items[i].d, TMaxOf(s2.q[k].items[i].base, s2.q[k].pbase))}
  IN UNION { T(QTags(s2, "C12"), {Bad("", "task not woken", k) : k \in owed}),
       IF e.o \in {"qn", "qi", "qr", "qm", "qt", "qp", "qc", "qk", "qs", "qv"} THEN
         LET n == Cardinality(DOMAIN s2.q[id].items)
         IN UNION { G(e.qi[1] = n, "C10", "length", <<e.qi, n>>), G(e.qi[2] = (IF n = 0 THEN 1 ELSE 0), "C10", "is_empty", e.qi),
                    G(e.qi[3] >= n /\ e.qi[3] >= s2.q[id].rsv, "C13", "capacity", e.qi),
                    IF e.o = "qc" THEN {} ELSE G(e.dr = <<>>, "C10", "a value was dropped", e.dr) }
       ELSE {},
       IF e.o \in {"qc", "qd"} THEN
         G(Len(e.dr) = Cardinality(DOMAIN q.items) /\ ToSet(e.dr) = {q.items[k].val : k \in DOMAIN q.items},
           "C10", "values released by clear or drop", e.dr)
       ELSE IF e.o = "qi" THEN G(r[1] \notin DOMAIN q.items, "C13", "the key of another entry", r)
       ELSE IF e.o = "qm" THEN QEntry(s, q, r) \cup G(r[2] = e.a[2], "C13", "removed another entry", r)
       ELSE IF e.o = "qt" THEN
         IF e.a[2] \in DOMAIN q.items THEN
           IF r[1] = 1 THEN QEntry(s, q, r) \cup G(r[2] = e.a[2], "C13", "removed another entry", r)
           ELSE T({"C10", "C13"}, {Bad("", "the entry was not found", e.a[2])})
         ELSE G(r[1] = 0, "C13", "a key that designates nothing removed an entry", r)
       ELSE IF e.o = "qp" THEN
         IF r[1] = 1 THEN
           QEntry(s, q, r) \cup G(TLeq(r[4], s.now), "C11", "returned before its deadline", r) \cup
           (IF r[2] \in DOMAIN q.items /\ s.paused THEN G(TLeq(q.items[r[2]].d, s.now), "C09", "returned before its deadline", r) ELSE {}) \cup
           G(\A k \in DOMAIN q.items \ {r[2]} : ~TLt(q.items[k].hi, r[4]), "C11", "out of order", r)
         ELSE IF r[1] = 0 THEN T({"C10", "C12"}, G(q.items = Empty, "", "ended though not empty", id))
         ELSE UNION {
           G(q.items # Empty \/ ~Must(s, q.ebase, q.ebase), "C12", "pending though empty", id),
           T(QTags(s2, "C12"), G(s2.q[id].spin <= 8, "", "an entry that is due is not delivered", id)),
           T({"C12", "C09"}, G(\A k \in DOMAIN q.items : ~SyncDue(s, q.items[k].d), "", "pending though due under the frozen clock", id)) }
       ELSE {} }

\* 1 microsecond of truncation plus the rounding of the host's float
Near(x, y, tol) == TLeq(TDiff(x, y), tol) /\ TLeq(TDiff(y, x), tol)
ClockGuards(s, s1, s2, e) ==
  UNION {
    T({"C08", "C15"}, G(TLeq(s.now, e.now), "", "the clock went backwards", e.now)),
    IF e.o = "ad" THEN G(e.now = TAdd(s.now, e.a[1]), "C08", "advanced by something else", e.now)
    ELSE IF e.o = "pa" THEN G(Near(e.now, TAdd(s.rb, TSub(e.host, s.rh)), TUs(2)), "C08", "reading moved when paused", e.now)
    ELSE IF e.o = "re" THEN G(e.now = s.now, "C08", "reading moved when resumed", e.now)
    ELSE IF s1.paused THEN G(e.now = s.now, "C08", "the frozen clock moved", e.now)
    ELSE IF s1.everp THEN G(Near(e.now, TAdd(s.rb, TSub(e.host, s.rh)), TUs(2)), "C08", "not at the host's pace", e.now)
    ELSE T({"C15", "C08"}, G(TLeq(e.now, TAdd(e.host, TNs(200))) /\ TLeq(TDiff(e.host, e.now), TNs(1200)), "", "not the host's clock", e.now)) }

HostGuards(s, s1, s2, e) ==
  LET el == TDiff(e.host, s.idle)
      bound == 25 + 25 * (IF el[1] > 0 \/ el[2] > 0 \/ el[3] > 50000000 THEN 10000000 ELSE el[3] \div 5)
      items == Cardinality(UNION {{<<k, i>> : i \in DOMAIN s2.q[k].items} : k \in DOMAIN s2.q})
      lim == 25 + Cardinality(s2.req) + s2.reqx + 7 * items
  IN UNION {
       G(\A i \in 1..Len(e.arm) : e.arm[i][2] >= 0, "C04", "delay out of range", e.arm),
       G(s2.cnt <= bound, "C04", "too many callbacks while idle", s2.cnt),
       G(Cardinality(DOMAIN s2.arm) <= lim, "C04", "callbacks pile up", <<Cardinality(DOMAIN s2.arm), lim>>) }

\* Nothing is kept for what is gone
KeepGuards(s, s1, s2, e) ==
  UNION {
    IF "hw" \in DOMAIN e THEN
      LET may == UNION {s2.pass[k] : k \in DOMAIN s2.pass}
      IN {Bad("C18", "a waker is kept though no timer needs it", w) :
            w \in {x \in ToSet(e.hw) \ may : x \notin DOMAIN s2.gone \/ TLeq(s2.gone[x], s2.cut)}}
    ELSE {},
    IF e.o = "mm" /\ s.mem # <<>> /\ TLeq(s.spare, s.cut) /\ Objects(s) <= s.mem[2] THEN
      G(e.r[1] <= s.mem[1] + 6000, "C18", "memory is kept", <<s.mem, e.r>>)
    ELSE {},
    IF e.o = "td" /\ e.r # <<>> THEN T({"C07", "C18"}, G(e.r = <<0>>, "", "the wrapped future is kept", e.a[1])) ELSE {} }

\* A request too far ahead (2^36 ms) of what the queue has last delivered, which
\* it knows to within 64 ms, may be refused.
TooFar(s, e) ==
  /\ e.o \in {"qi", "qr"} /\ e.a[1] \in DOMAIN s.q
  /\ LET q == s.q[e.a[1]]
         ahead == TAdd(q.hz, <<0, 0, 68719476, 735000000>>)
     IN TLt(IF q.hz = q.start THEN ahead ELSE TSub(ahead, TMs(64)),
            QDl(q, IF e.a[2] = 0 THEN TAdd(s.now, e.a[4]) ELSE e.a[4]))

\* calls that have to panic
Misuse(s, e) ==
  \/ e.o = "pa" /\ s.paused
  \/ e.o \in {"re", "ad"} /\ ~s.paused

\* remove and reset of a key that designates no entry
NoEntry(s, e) ==
  /\ e.o \in {"qm", "qr"} /\ e.a[1] \in DOMAIN s.q
  /\ e.a[IF e.o = "qm" THEN 2 ELSE 3] \notin DOMAIN s.q[e.a[1]].items

\* e is about something that exists, and its result has the shape it has to have
Defined(s, e) ==
  LET a == e.a
      r == e.r
  IN CASE e.o \in {"sp", "sr", "sb", "sd"} -> a[1] \in DOMAIN s.sl /\ (e.o = "sd" \/ Len(r) = 1)
       [] e.o \in {"sn", "su"} -> a[1] \notin DOMAIN s.sl /\ Len(r) = 1
       [] e.o \in {"ip", "ir", "ib", "ii", "iD"} -> a[1] \in DOMAIN s.iv
       [] e.o \in {"in", "ia"} -> a[1] \notin DOMAIN s.iv
       [] e.o \in {"tp", "tc", "td", "ti"} -> a[1] \in DOMAIN s.to
       [] e.o \in {"qi", "qp", "qm", "qt", "qr", "qc", "qk", "qs", "qv", "qd"} ->
            a[1] \in DOMAIN s.q
       [] e.o = "cb" -> a[1] \in DOMAIN s.arm
       [] OTHER -> TRUE

\* a value operation is about values there are
DefinedValue(s, e) ==
  LET a == e.a
  IN CASE e.o = "xa" -> a[3] \in DOMAIN s.x
       [] e.o = "xd" -> {a[2], a[3]} \subseteq DOMAIN s.x
       [] e.o = "xc" -> {a[1], a[2]} \subseteq DOMAIN s.x
       [] e.o = "xe" -> a[1] \in DOMAIN s.x
       [] e.o = "ya" -> a[3] \in DOMAIN s.y
       [] e.o \in {"yd", "yc"} -> {a[1], a[2]} \subseteq DOMAIN s.y
       [] e.o \in {"yl", "yz"} -> a[1] \in DOMAIN s.y
       [] OTHER -> TRUE

\* The guards in force that e breaks in s, and the state after e
Judge(s, e) ==
  IF e.o = "init" /\ e.p = 0 THEN [bad |-> {}, st |-> s]
  ELSE IF e.p = 2 THEN [bad |-> {Bad("ANY", "hang", e.o)}, st |-> s]
  ELSE IF e.o \in ValueOps /\ ~DefinedValue(s, e) THEN [bad |-> {Bad("WITNESS", "outside the contract", e.o)}, st |-> s]
  ELSE IF e.o \in ValueOps THEN
    [bad |-> ValueViolations(s, e), st |-> ApplyValue(s, e)]
  ELSE IF Misuse(s, e) THEN
    [bad |-> G(e.p = 1, "C08", "misuse of the test clock did not panic", e.o), st |-> [s EXCEPT !.ended = TRUE]]
  ELSE IF NoEntry(s, e) THEN
    [bad |-> G(e.p = 1, "C13", "a key that designates nothing was accepted", e.a), st |-> [s EXCEPT !.ended = TRUE]]
  ELSE IF e.p = 1 /\ TooFar(s, e) THEN [bad |-> {}, st |-> [s EXCEPT !.ended = TRUE]]
  ELSE IF e.p = 0 /\ ~Defined(s, e) THEN [bad |-> {Bad("WITNESS", "outside the contract", e.o)}, st |-> s]
  ELSE IF e.p # 0 THEN [bad |-> {Bad("ANY", "panic", e.o)}, st |-> s]
  ELSE LET s1 == Apply(s, e)
           s2 == IF On({"C18"}) THEN Keep(s, e, Observe(s, s1, e)) ELSE Observe(s, s1, e)
       IN [ bad |-> UNION { IF On({"C01", "C02", "C03", "C09"}) THEN SleepGuards(s, s1, s2, e) ELSE {},
                            IF On({"C01", "C02", "C03", "C05", "C06", "C07", "C09"}) THEN WakeGuards(s, s1, s2, e) ELSE {},
                            IF On({"C05", "C06", "C09"}) \/ e.o = "ip" THEN IvGuards(s, s1, s2, e) ELSE {},
                            IF On({"C07", "C09"}) THEN ToGuards(s, s1, s2, e) ELSE {},
                            IF On({"C09", "C10", "C11", "C12", "C13"}) THEN QGuards(s, s1, s2, e) ELSE {},
                            IF On({"C08", "C15"}) THEN ClockGuards(s, s1, s2, e) ELSE {},
                            IF On({"C04"}) THEN HostGuards(s, s1, s2, e) ELSE {},
                            IF On({"C07", "C18"}) THEN KeepGuards(s, s1, s2, e) ELSE {} },
            st |-> s2 ]

Violations(s, e) == Judge(s, e).bad
Step(s, e) == Judge(s, e).st

Enforced(v) == {b \in v : b[1] \in Enforce \cup {"ANY"}}
=============================================================================
