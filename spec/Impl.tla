-------------------------------- MODULE Impl --------------------------------
(***************************************************************************)
(* The design of wasmtimer as the code implements it: the timer driven by  *)
(* host callbacks (src/timer), sleeps, intervals, timeouts, the test clock *)
(* (src/tokio) and the delay queue with its hashed wheel and its slab of   *)
(* keys (src/tokio_util), as operators on one record m. Design.tla makes   *)
(* a state machine of them and checks it, step by step, against the        *)
(* contract (WasmTimer.tla).                                               *)
(*                                                                         *)
(* Times are whole ticks, U of them to a millisecond.                      *)
(***************************************************************************)
EXTENDS WasmTimer

CONSTANTS
  U,          \* ticks per millisecond: 1 or 2
  MinDelay,   \* the host's least delay, ms
  MaxDelay,   \* the greatest delay the library asks for, ms (2^31-1 in the code)
  IdleMs,     \* how often it looks when nothing is to come, ms (5000 in the code)
  WB, WL,     \* slots of a level and levels of the wheel (64 and 6 in the code)
  Faults      \* defects of earlier designs, put back in: see below

(* Faults:  "limit"      at most 2 callbacks outstanding, whatever they are for
            "spin"       a delay beyond MaxDelay is asked for as 0
            "plusone"    the wheel is polled a millisecond past the delay
            "resetpast"  reset to the past does not wake the queue's task
            "removelast" remove of the last entry (and clear) does not wake it
            "filed"      filing an entry as expired does not wake it
            "horizon"    the wheel ends after WB^WL ms of the queue's life
            "keepheap"   a dropped sleep stays in the heap
            "lowestonly" the idle look is taken without looking at the heap
            "nokeymap"   a key whose slot moved is not followed
            "relock"     tasks are woken while the timer is locked
            "relockdrop" dropped sleeps are released while it is locked      *)
None == -1

Tk(k) == IF U = 1 THEN TMs(k) ELSE <<0, 0, k \div 2000, (k % 2000) * 500000>>
Ms(k) == k \div U             \* whole milliseconds in k ticks
MsUp(k) == (k + U - 1) \div U
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == MinSet(S) IN <<x>> \o SeqOf(S \ {x})
RECURSIVE Filter(_, _)
Filter(q, x) == IF q = <<>> THEN <<>> ELSE (IF Head(q) = x THEN <<>> ELSE <<Head(q)>>) \o Filter(Tail(q), x)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)

-----------------------------------------------------------------------------
(* The clock (src/timer/clock.rs)                                            *)

Now(m) == IF m.paused THEN m.base ELSE m.base + (m.H - m.unf)

(* The timer (src/timer/mod.rs, global.rs)                                   *)
(*   list   nodes to be looked at, the last pushed first; each at most once   *)
(*   node   at: the deadline asked for (None: dropped), gen, fired, wk: the   *)
(*          waker registered, hp: its entry <<at, gen>> in the heap, or <<>>  *)
(*   reg    the timer has registered its waker since it was last woken       *)
(*   cbs    the host's callbacks: id -> [due: when the host runs it,          *)
(*          rq: the instant the library has in mind]                         *)

Nobody == <<>>
NewNode(at) == [at |-> at, gen |-> 0, fired |-> FALSE, wk |-> 0, hp |-> Nobody]

RECURSIVE Drain(_, _)
\* <<m, the nodes found dropped>>
Drain(m, gone) ==
  IF m.list = <<>> THEN <<m, gone>>
  ELSE LET n == Head(m.list)
           x == m.node[n]
       IN Drain([m EXCEPT !.list = Tail(@),
                          !.node[n].hp = IF x.at = None THEN (IF "keepheap" \in Faults THEN @ ELSE Nobody) ELSE <<x.at, x.gen>>],
                IF x.at = None /\ "keepheap" \notin Faults THEN Append(gone, n) ELSE gone)

Heaped(m) == {n \in DOMAIN m.node : m.node[n].hp # Nobody}
NextEvent(m) == LET h == Heaped(m) IN IF h = {} THEN None ELSE MinSet({m.node[n].hp[1] : n \in h})

RECURSIVE FireDue(_, _)
\* the wakers of what fires are taken: m.pend
FireDue(m, now) ==
  LET due == {n \in Heaped(m) : m.node[n].hp[1] <= now}
  IN IF due = {} THEN m
     ELSE LET at == MinSet({m.node[n].hp[1] : n \in due})
              n == MinSet({k \in due : m.node[k].hp[1] = at})
              x == m.node[n]
              hit == x.hp[2] = x.gen /\ ~x.fired
          IN FireDue([m EXCEPT !.node[n] = [@ EXCEPT !.hp = Nobody, !.fired = @ \/ hit, !.wk = IF hit THEN 0 ELSE @],
                               !.pend = IF hit /\ x.wk # 0 THEN Append(@, x.wk) ELSE @], now)

FreeCb(m) == MinSet(1..(Cardinality(DOMAIN m.cbs) + 1) \ DOMAIN m.cbs)
Delay(ms) == IF ms > MaxDelay THEN (IF "spin" \in Faults THEN 0 ELSE MaxDelay) ELSE ms
Request(m, ms) ==
  LET d == Delay(ms)
      id == FreeCb(m)
      due == m.H + U * Max2(MinDelay, d)
  IN [m EXCEPT !.cbs = Put(@, id, [due |-> due, rq |-> m.H + U * d]), !.arm = Append(@, <<id, d, Tk(due)>>)]

RECURSIVE Body(_)
Schedule(m) == IF m.paused THEN Body(m) ELSE Request(m, 0)
WakeTimer(m) == IF m.reg THEN Schedule([m EXCEPT !.reg = FALSE]) ELSE m
Start(m) == IF m.started THEN m ELSE Schedule([m EXCEPT !.started = TRUE])
PushNode(m, n) ==
  WakeTimer(IF \E i \in 1..Len(m.list) : m.list[i] = n THEN m ELSE [m EXCEPT !.list = <<n>> \o @])

\* sleeps (src/tokio/sleep.rs)
NodeNew(m, n, at) == LET m1 == Start(m) IN PushNode([m1 EXCEPT !.node = Put(@, n, NewNode(at)), !.dl = Put(@, n, at)], n)
NodeReset(m, n, at) ==
  PushNode([m EXCEPT !.node[n] = [@ EXCEPT !.at = at, !.gen = @ + 1, !.fired = FALSE], !.dl[n] = at], n)
NodeDrop(m, n) == PushNode([m EXCEPT !.node[n].at = None, !.dl = Del(@, n)], n)
NodeElapsed(m, n) == m.node[n].fired

(* Wakers. Most do nothing but tell that the task is to run. Some run it at  *)
(* once (m.re: waker -> [drop, fresh, dur, rst], the sleeps it drops, makes  *)
(* and resets), some keep the task, and with it a sleep, for as long as      *)
(* someone has them (m.own: waker -> sleep).                                 *)

\* someone has a clone of it
Kept(m, w) == (\E n \in DOMAIN m.node : m.node[n].wk = w) \/ (\E i \in 1..Len(m.pend) : m.pend[i] = w)
\* a clone of it is gone
Release(m, w) ==
  IF w \notin DOMAIN m.own \/ Kept(m, w) THEN m
  ELSE NodeDrop([m EXCEPT !.own = Del(@, w), !.rxb = Append(@, <<w, m.own[w], 0, TZero, TZero, 0>>), !.sl = @ \ {m.own[w]}], m.own[w])
\* its task is woken
Woken(m, w) ==
  LET m1 == [m EXCEPT !.wk = Append(@, w)]
      r == m.re[w]
      at == Now(m) + r.dur
      m2 == [m1 EXCEPT !.re = Del(@, w),
                       !.rx = Append(@, <<w, r.drop, r.fresh, Tk(r.dur), IF r.fresh = 0 THEN TZero ELSE Tk(at), r.rst>>)]
      m3 == IF r.drop = 0 THEN m2 ELSE NodeDrop([m2 EXCEPT !.sl = @ \ {r.drop}], r.drop)
      m4 == IF r.fresh = 0 THEN m3 ELSE NodeNew([m3 EXCEPT !.sl = @ \cup {r.fresh}], r.fresh, at)
  IN IF w \notin DOMAIN m.re THEN m1 ELSE IF r.rst = 0 THEN m4 ELSE NodeReset(m4, r.rst, at)
Wake(m, w) == IF w = 0 THEN m ELSE Woken(m, w)

NodePoll(m, n, w) ==
  LET old == m.node[n].wk
  IN IF m.node[n].fired THEN Release(m, w)
     ELSE LET m1 == [m EXCEPT !.node[n].wk = w] IN IF old \in {0, w} THEN m1 ELSE Release(m1, old)

RECURSIVE ReleaseAll(_, _)
ReleaseAll(m, gone) ==
  IF gone = <<>> THEN m
  ELSE LET n == Head(gone)
           m1 == [m EXCEPT !.node[n].wk = 0]
       IN ReleaseAll(IF m.node[n].wk = 0 THEN m ELSE Release(m1, m.node[n].wk), Tail(gone))
RECURSIVE WakeAll(_, _)
WakeAll(m, ws) ==
  IF ws = <<>> THEN m
  ELSE LET m1 == Woken(m, Head(ws))
           i == CHOOSE j \in 1..Len(m1.pend) : m1.pend[j] = Head(ws)
           m2 == [m1 EXCEPT !.pend = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
       IN WakeAll(Release(m2, Head(ws)), Tail(ws))

\* What a callback does: polls the timer, fires what is due, and only then,
\* the timer unlocked, releases what was dropped and wakes the tasks, which
\* may call into all of this.
Body(m) ==
  LET now == Now(m)
      dr == Drain([m EXCEPT !.reg = TRUE], <<>>)
      m1 == FireDue(dr[1], now)
      ws == SubSeq(m1.pend, Len(m.pend) + 1, Len(m1.pend))
      ne == IF "lowestonly" \in Faults THEN None ELSE NextEvent(m1)
      d == IF ne = None THEN IdleMs ELSE IF ne > now THEN Ms(ne - now) ELSE 0
      m2 == ReleaseAll([m1 EXCEPT !.locked = "relockdrop" \in Faults], dr[2])
      m3 == WakeAll([m2 EXCEPT !.locked = "relock" \in Faults], ws)
      m4 == [m3 EXCEPT !.locked = m.locked]
      covered == IF "limit" \in Faults THEN Cardinality(DOMAIN m4.cbs) >= 2
                 ELSE \E c \in DOMAIN m4.cbs : m4.cbs[c].rq <= m4.H + U * Delay(d)
  IN IF m.locked THEN [m EXCEPT !.stuck = TRUE]
     ELSE IF m4.paused \/ covered THEN m4 ELSE Request(m4, d)

\* nodes nothing refers to any more
Collect(m) ==
  LET keep == {n \in DOMAIN m.node : n \in DOMAIN m.dl \/ m.node[n].hp # Nobody \/ \E i \in 1..Len(m.list) : m.list[i] = n}
  IN [m EXCEPT !.node = [n \in keep |-> @[n]]]

-----------------------------------------------------------------------------
(* The wheel (src/tokio_util/wheel): lv[level][slot] is a stack of keys, the *)
(* last pushed first; an entry lies at the level of the highest digit, to    *)
(* the base WB, in which its time differs from the wheel's.                  *)

SlotRange(l) == Pow(WB, l)
Digit(t, l) == (t \div SlotRange(l)) % WB
NoWheel == [l \in 0..(WL - 1) |-> [s \in 0..(WB - 1) |-> <<>>]]
HighestDiff(e, w) ==
  LET top == WL + 3
      ds == {l \in 0..top : Digit(e, l) # Digit(w, l)}
  IN IF ds = {} THEN 0 ELSE CHOOSE l \in ds : \A k \in ds : k <= l
\* WL stands for beyond the last level: the code panics there
LevelFor(e, w) == LET l == HighestDiff(e, w) IN IF l < WL THEN l ELSE IF "horizon" \in Faults THEN WL ELSE WL - 1

Occupied(q, l) == {s \in 0..(WB - 1) : q.lv[l][s] # <<>>}
\* <<level, slot, deadline>>, or <<>>
LevelNext(q, l) ==
  LET e == q.elapsed
      first == IF "horizon" \in Faults \/ e % SlotRange(l) = 0 THEN Digit(e, l) ELSE Digit(e, l) + 1
      occ == Occupied(q, l)
      k == MinSet({(s - first + 2 * WB) % WB : s \in occ})
      s == (first + k) % WB
      d == (e - (e % SlotRange(l + 1))) + s * SlotRange(l)
  IN IF occ = {} THEN <<>> ELSE <<l, s, IF d < e /\ "horizon" \notin Faults THEN d + SlotRange(l + 1) ELSE d>>
RECURSIVE WheelNext(_, _)
WheelNext(q, l) == IF l = WL THEN <<>> ELSE LET x == LevelNext(q, l) IN IF x # <<>> THEN x ELSE WheelNext(q, l + 1)

(* The slab of entries and the keys (delay_queue.rs, SlabStorage; crate slab) *)
(*   ent   sequence of [occ, val, when, exp, nx]; index i is ent[i + 1]        *)
(*   nx    the free list, a vacant entry's successor                         *)

Vacant(nx) == [occ |-> FALSE, val |-> 0, when |-> 0, exp |-> FALSE, nx |-> nx]
Idx(q, k) == IF ~q.cc THEN k ELSE IF k \in DOMAIN q.km THEN q.km[k] ELSE None
Present(q, k) == LET i == Idx(q, k) IN i # None /\ i < Len(q.ent) /\ q.ent[i + 1].occ
\* (an entry that is missing, of which only a faulty design speaks, panics: see QEvent)
At(q, k) == IF Present(q, k) THEN q.ent[Idx(q, k) + 1] ELSE Vacant(0)
SlabLen(q) == Cardinality({i \in 1..Len(q.ent) : q.ent[i].occ})

RECURSIVE FreshKey(_, _)
FreshKey(q, k) == IF k \in DOMAIN q.km THEN FreshKey(q, k + 1) ELSE k
\* <<q, key>>
SlabInsert(q, val, when) ==
  LET i == q.free
      x == [occ |-> TRUE, val |-> val, when |-> when, exp |-> FALSE, nx |-> 0]
      q1 == IF i = Len(q.ent) THEN [q EXCEPT !.ent = Append(@, x), !.free = i + 1]
            ELSE [q EXCEPT !.free = q.ent[i + 1].nx, !.ent[i + 1] = x]
  IN IF i \in DOMAIN q.km THEN
       LET k == FreshKey(q, q.nki) IN <<[q1 EXCEPT !.nki = k, !.km = Put(@, k, i)], k>>
     ELSE IF q.cc THEN <<[q1 EXCEPT !.km = Put(@, i, i)], i>>
     ELSE <<q1, i>>
SlabRemove(q, k) ==
  LET i == Idx(q, k)
  IN [q EXCEPT !.ent[i + 1] = Vacant(q.free), !.free = i, !.km = Del(@, k)]

RECURSIVE Revacant(_, _)
\* the free list anew, lowest index first; i counts down
Revacant(q, i) ==
  IF i = 0 THEN q
  ELSE Revacant(IF q.ent[i].occ THEN q ELSE [q EXCEPT !.ent[i] = Vacant(q.free), !.free = i - 1], i - 1)
RECURSIVE DropTail(_)
DropTail(e) == IF e = <<>> \/ e[Len(e)].occ THEN e ELSE DropTail(SubSeq(e, 1, Len(e) - 1))
SlabShrink(q) ==
  LET e == DropTail(q.ent)
  IN IF Len(e) = Len(q.ent) THEN q ELSE Revacant([q EXCEPT !.ent = e, !.free = Len(e)], Len(e))

\* moves the last occupied entry to the first vacant place, until there is none
RECURSIVE Compacted(_, _)
Compacted(e, mv) ==
  LET vac == {i \in 1..Len(e) : ~e[i].occ}
      n == Len(e)
  IN IF vac = {} THEN <<e, mv>>
     ELSE IF ~e[n].occ THEN Compacted(SubSeq(e, 1, n - 1), mv)
     ELSE LET v == MinSet(vac)
          IN Compacted(SubSeq([e EXCEPT ![v] = e[n]], 1, n - 1), Put(mv, n - 1, v - 1))
SlabCompact(q) ==
  LET km0 == IF q.cc THEN q.km ELSE [i \in {j \in 0..(Len(q.ent) - 1) : q.ent[j + 1].occ} |-> i]
      r == Compacted(q.ent, Empty)
      mv == IF "nokeymap" \in Faults THEN Empty ELSE r[2]
  IN [q EXCEPT !.ent = r[1], !.free = Len(r[1]), !.cc = TRUE,
               !.km = [k \in DOMAIN km0 |-> IF km0[k] \in DOMAIN mv THEN mv[km0[k]] ELSE km0[k]]]

(* The delay queue. Its delay is the node q.delay (or None); a new one gets   *)
(* whichever of its two names is free, since it lives before the old goes.   *)
NoQueue(start) ==
  [start |-> start, ent |-> <<>>, free |-> 0, km |-> Empty, nki |-> 0, cc |-> FALSE,
   elapsed |-> 0, lv |-> NoWheel, exp |-> <<>>, delay |-> None, wnow |-> 0, wk |-> 0, bad |-> FALSE,
   seen |-> {}]    \* keys handed out so far

RelMs(q, at, up) == IF at < q.start THEN 0 ELSE IF up THEN MsUp(at - q.start) ELSE Ms(at - q.start)
Normal(q, at) == Max2(RelMs(q, at, TRUE), q.elapsed)
QAt(q, when) == q.start + U * when
QDeadline(q) == LET x == WheelNext(q, 0) IN IF x = <<>> THEN None ELSE QAt(q, x[3])

WheelRemove(q, k) ==
  LET w == At(q, k).when
      l == LevelFor(q.elapsed, w)
      s == Digit(w, l)
  IN IF l >= WL \/ w < q.elapsed THEN [q EXCEPT !.bad = TRUE]
     ELSE IF \A i \in 1..Len(q.lv[l][s]) : q.lv[l][s][i] # k THEN [q EXCEPT !.bad = TRUE]
     ELSE [q EXCEPT !.lv[l][s] = Filter(@, k)]
RemoveKey(q, k) == IF At(q, k).exp THEN [q EXCEPT !.exp = Filter(@, k)] ELSE WheelRemove(q, k)

\* the queue's part of m
QSet(m, id, q) == [m EXCEPT !.q[id] = q]
QWake(m, id) == Wake([m EXCEPT !.q[id].wk = 0], m.q[id].wk)
FreshNode(m, id) == LET b == 1000 * id IN MinSet(b..(b + Cardinality(DOMAIN m.node)) \ DOMAIN m.node)
\* the delay becomes a new sleep to at (None: none), and the old one is dropped
Delayed(m, id, at) ==
  LET old == m.q[id].delay
      n == FreshNode(m, id)
      m1 == IF at = None THEN m ELSE NodeNew(m, n, at)
      m2 == [m1 EXCEPT !.q[id].delay = IF at = None THEN None ELSE n]
  IN IF old = None THEN m2 ELSE NodeDrop(m2, old)
\* the delay is reset, made or dropped
Redelayed(m, id, at) ==
  LET old == m.q[id].delay
  IN IF at # None /\ old # None THEN NodeReset(m, old, at) ELSE Delayed(m, id, at)

InsertIdx(m, id, k, w) ==
  LET q == m.q[id]
      i == Idx(q, k) + 1
  IN IF w <= q.elapsed THEN
       LET m1 == QSet(m, id, [q EXCEPT !.ent[i].exp = TRUE, !.exp = <<k>> \o @])
       IN IF "filed" \in Faults THEN m1 ELSE QWake(m1, id)
     ELSE LET l == LevelFor(q.elapsed, w)
          IN IF l >= WL THEN QSet(m, id, [q EXCEPT !.bad = TRUE])
             ELSE QSet(m, id, [q EXCEPT !.lv[l][Digit(w, l)] = <<k>> \o @])

\* <<m, key>>
QInsert(m, id, val, at) ==
  LET w == Normal(m.q[id], at)
      r == SlabInsert(m.q[id], val, w)
      k == r[2]
      m1 == InsertIdx(QSet(m, id, r[1]), id, k, w)
      q == m1.q[id]
      sooner == q.delay = None \/ Normal(q, m1.dl[q.delay]) > w
      m2 == IF sooner THEN QWake(m1, id) ELSE m1
      m3 == [m2 EXCEPT !.q[id].seen = @ \cup {k}]
  IN <<IF ~sooner THEN m3 ELSE IF q.delay = None THEN Delayed(m3, id, QAt(q, w)) ELSE NodeReset(m3, q.delay, QAt(q, w)), k>>

QRemove(m, id, k) ==
  LET q == m.q[id]
      prev == QDeadline(q)
      q1 == SlabRemove(RemoveKey(q, k), k)
      next == QDeadline(q1)
      m1 == QSet(m, id, q1)
      m2 == IF prev # next THEN Redelayed(m1, id, next) ELSE m1
  IN IF SlabLen(q1) = 0 /\ "removelast" \notin Faults THEN QWake(m2, id) ELSE m2

QReset(m, id, k, at) ==
  LET q == RemoveKey(m.q[id], k)
      w == Normal(q, at)
      i == Idx(q, k) + 1
      m1 == InsertIdx(QSet(m, id, [q EXCEPT !.ent[i].when = w, !.ent[i].exp = FALSE]), id, k, w)
      q1 == m1.q[id]
      m2 == IF (At(q1, k).exp \/ q1.delay = None) /\ "resetpast" \notin Faults THEN QWake(m1, id) ELSE m1
  IN Redelayed(m2, id, QDeadline(m2.q[id]))

QClear(m, id) ==
  LET q == m.q[id]
      m1 == QSet(m, id, [q EXCEPT !.ent = <<>>, !.free = 0, !.km = Empty, !.cc = FALSE, !.exp = <<>>,
                                  !.lv = NoWheel, !.elapsed = 0])
      m2 == Delayed(m1, id, None)
  IN IF "removelast" \in Faults THEN m2 ELSE QWake(m2, id)

\* one visit of an expiration: <<q, key or None>>
RECURSIVE Expire(_, _)
Expire(q, x) ==
  LET l == x[1]
      st == q.lv[l][x[2]]
  IN IF st = <<>> THEN <<q, None>>
     ELSE LET k == Head(st)
              q1 == [q EXCEPT !.lv[l][x[2]] = Tail(@)]
          IN IF l = 0 THEN <<q1, k>>
             ELSE Expire([q1 EXCEPT !.lv[l - 1][Digit(At(q1, k).when, l - 1)] = <<k>> \o @], x)
RECURSIVE WheelPoll(_, _)
WheelPoll(q, now) ==
  LET x == WheelNext(q, 0)
  IN IF x = <<>> \/ x[3] > now THEN <<[q EXCEPT !.elapsed = Max2(@, now), !.bad = @ \/ now < q.elapsed], None>>
     ELSE LET r == Expire(q, x)
          IN IF r[2] # None THEN r
             ELSE WheelPoll([r[1] EXCEPT !.elapsed = x[3], !.bad = @ \/ x[3] < q.elapsed], now)

\* <<m, key, or -1 pending, or -2 ended>>
RECURSIVE PollIdx(_, _, _)
PollIdx(m, id, w) ==
  LET q == m.q[id]
      n == q.delay
      waits == n # None /\ ~NodeElapsed(m, n)
      wn == IF n = None THEN q.wnow ELSE RelMs(q, m.dl[n], FALSE) + (IF "plusone" \in Faults THEN 1 ELSE 0)
      r == WheelPoll([q EXCEPT !.wnow = wn], wn)
      m1 == Delayed(QSet(m, id, r[1]), id, QDeadline(r[1]))
  IN IF waits THEN <<NodePoll(m, n, w), -1>>
     ELSE IF r[2] # None THEN <<m1, r[2]>>
     ELSE IF m1.q[id].delay = None THEN <<m1, -2>>
     ELSE PollIdx(m1, id, w)
QPoll(m, id, w) ==
  LET m0 == [m EXCEPT !.q[id].wk = w]
      q == m0.q[id]
  IN IF q.exp # <<>> THEN <<QSet(m0, id, [q EXCEPT !.exp = Tail(@)]), Head(q.exp)>>
     ELSE PollIdx(m0, id, w)
=============================================================================
