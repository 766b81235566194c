------------------------------- MODULE Design -------------------------------
(***************************************************************************)
(* The design (Impl.tla) as a state machine, in lockstep with the contract *)
(* (WasmTimer.tla): every action of the design produces the event that an  *)
(* execution of the real code would show, the contract judges it, and      *)
(* Refines says that no guard of the contract is ever broken. TLC explores *)
(* every schedule of the operations in Ops, of the host clock and of the   *)
(* host's callbacks, within the bounds.                                    *)
(*                                                                         *)
(* tr is the schedule so far, for replay on the real code; it is not part  *)
(* of the state (VIEW).                                                    *)
(***************************************************************************)
EXTENDS Impl, Json

CONSTANTS
  Ops,                   \* operations in play
  MaxOps,                \* how many of them (host steps not counted)
  MaxH,                  \* ticks the host clock runs at most
  HSteps,                \* by how much the host clock may move at once
  Durs,                  \* durations, ticks
  Instants,              \* absolute instants, ticks
  Periods,               \* of intervals, ticks
  Advances,              \* of the test clock, ticks
  Sleeps, Intervals, Timeouts, Queues,   \* names of the objects
  Values,                \* how many entries are inserted at most
  NWakers,               \* wakers of each task; 0: all tasks share one
  TuFrom,                \* TRUE: the test clock is paused at once
  Endless,               \* without bounds on operations and time: see Endless.tla
  Record                 \* keep tr, and print it where a schedule ends

VARIABLES m, st, bad, n, nv, tr
vars == <<m, st, bad, n, nv, tr>>
\* what only the count of callbacks needs is not looked at where that is not checked
View == <<m, IF "C04" \in Enforce THEN st ELSE [st EXCEPT !.idle = 0, !.cnt = 0], bad, n, nv>>

Init ==
  /\ m = [H |-> 0, paused |-> FALSE, base |-> 0, unf |-> 0, started |-> FALSE, reg |-> FALSE,
          list |-> <<>>, node |-> Empty, dl |-> Empty, cbs |-> Empty, arm |-> <<>>, wk |-> <<>>,
          sl |-> {}, iv |-> Empty, to |-> Empty, q |-> Empty,
          re |-> Empty, own |-> Empty, owned |-> {}, rx |-> <<>>, rxb |-> <<>>, pend |-> <<>>, locked |-> FALSE, stuck |-> FALSE]
  /\ st = Init0(MinDelay, Tk(0), Tk(0))
  /\ bad = {}
  /\ n = 0 /\ nv = 0 /\ tr = <<>>

Shown(m2, o, a, r) ==
  [o |-> o, a |-> a, r |-> r, p |-> IF m2.stuck THEN 1 ELSE 0, now |-> Tk(Now(m2)), host |-> Tk(m2.H), wk |-> m2.wk,
   el |-> SeqOf({s \in m2.sl : m2.node[s].fired}), arm |-> m2.arm, rx |-> m2.rx \o m2.rxb]
\* the wakers someone keeps a clone of
Held(m2) ==
  LET c == Collect(m2)
  IN ({c.node[k].wk : k \in DOMAIN c.node} \cup {c.q[k].wk : k \in DOMAIN c.q} \cup {c.to[k].iw : k \in DOMAIN c.to}) \ {0}
Event(m2, o, a, r) ==
  LET e == Shown(m2, o, a, r) IN IF On({"C18"}) THEN e @@ [hw |-> SeqOf(Held(m2))] ELSE e

\* e has happened, leaving m2; x: how the driver of the real code is told
Happens(m2, e, x) ==
  LET j == Judge(st, e)
  IN /\ m' = Collect([m2 EXCEPT !.wk = <<>>, !.arm = <<>>, !.rx = <<>>, !.rxb = <<>>])
     /\ st' = j.st
     /\ bad' = Enforced(j.bad)
     /\ tr' = IF Record THEN Append(tr, [x |-> x, e |-> [o |-> e.o, r |-> e.r, p |-> e.p, now |-> Now(m2), host |-> m2.H, wk |-> e.wk, el |-> e.el, arm |-> [i \in 1..Len(e.arm) |-> e.arm[i][2]],
                                                             hw |-> IF On({"C18"}) THEN e.hw ELSE <<>>]]) ELSE tr

Can(o) == o \in Ops /\ (Endless \/ n < MaxOps) /\ (TuFrom => o = "pa" \/ m.paused \/ "re" \in Ops)
Counts == n' = IF Endless THEN 0 ELSE n + 1

\* the instants asked for: absolute, or from now
Ats == IF Endless THEN {Now(m) + i : i \in Instants} ELSE Instants
\* what the next entry is
NextVal(id) == IF Endless THEN MinSet({v \in 1..(Values + 1) : \A k \in DOMAIN st.q[id].items : st.q[id].items[k].val # v}) ELSE nv + 1

\* 0: all tasks share a waker; otherwise each has NWakers of its own
Wakers(id) == IF NWakers = 0 THEN {7} ELSE {10 * id + k : k \in 0..(NWakers - 1)}
LowestFree(S, used) == LET f == S \ used IN IF f = {} THEN {} ELSE {MinSet(f)}

-----------------------------------------------------------------------------
(* The host *)
HostMoves ==
  \E d \in HSteps :
    /\ Endless \/ m.H + d <= MaxH
    /\ LET m2 == [m EXCEPT !.H = @ + d] IN Happens(m2, Event(m2, "host", <<>>, <<>>), <<"host", m2.H>>)
    /\ UNCHANGED <<n, nv>>
\* it runs the callback that has been due for longest
HostRuns ==
  /\ m.cbs # Empty
  /\ LET due == MinSet({m.cbs[c].due : c \in DOMAIN m.cbs})
         c == MinSet({k \in DOMAIN m.cbs : m.cbs[k].due = due})
         m1 == [m EXCEPT !.H = Max2(@, due), !.cbs = Del(@, c)]
         m2 == Body(m1)
     IN /\ Endless \/ m1.H <= MaxH
        /\ Happens(m2, Event(m2, "cb", <<c>>, <<>>), <<"cbx", m1.H>>)
  /\ UNCHANGED <<n, nv>>

(* Wakers that run their task at once, or keep it (see Impl). The sleeps    *)
(* spoken for are left to them.                                             *)
Spoken == UNION {{m.re[w].drop, m.re[w].fresh, m.re[w].rst} : w \in DOMAIN m.re} \cup {m.own[w] : w \in DOMAIN m.own}
Silent(m2, x) == m' = m2 /\ UNCHANGED <<st, bad>> /\ tr' = IF Record THEN Append(tr, [x |-> x, e |-> [o |-> "none"]]) ELSE tr
Reacts ==
  /\ Can("rx")
  /\ \E s \in m.sl :
       LET w == m.node[s].wk
           free == m.sl \ Spoken
       IN /\ w \notin DOMAIN m.re \cup {0}
          /\ \E dr, rs \in {0} \cup free, fr \in {0} \cup LowestFree({k + 100 : k \in Sleeps}, Spoken \cup DOMAIN m.node), d \in Durs :
               /\ (dr # rs \/ fr # 0)
               /\ (dr # rs \/ dr = 0)
               /\ rs # 0 => d >= U
               /\ fr = 0 /\ rs = 0 => d = MinSet(Durs)
               /\ Silent([m EXCEPT !.re = Put(@, w, [drop |-> dr, fresh |-> fr, dur |-> d, rst |-> rs])], <<"react", w, dr, fr, d, rs>>)
\* what goes with sleep k
RECURSIVE With(_)
With(k) == {k} \cup (IF 10 * k + 5 \in DOMAIN m.own THEN With(m.own[10 * k + 5]) ELSE {})
Owns ==
  /\ Can("ow")
  /\ \E s \in m.sl : \E k \in m.sl \ Spoken :
       /\ 10 * s + 5 \notin m.owned /\ s \notin With(k)
       /\ Silent([m EXCEPT !.own = Put(@, 10 * s + 5, k), !.owned = @ \cup {10 * s + 5}], <<"own", 10 * s + 5, k>>)

(* Sleeps *)
SleepNew ==
  \E id \in LowestFree(Sleeps, m.sl \cup DOMAIN m.node) :
    \/ /\ Can("sn")
       /\ \E d \in Durs :
            LET at == Now(m) + d
                m2 == [NodeNew(m, id, at) EXCEPT !.sl = @ \cup {id}]
            IN Happens(m2, Event(m2, "sn", <<id, Tk(d)>>, <<Tk(at)>>), <<"sn", id, d>>)
    \/ /\ Can("su")
       /\ \E at \in Ats :
            LET m2 == [NodeNew(m, id, at) EXCEPT !.sl = @ \cup {id}]
            IN Happens(m2, Event(m2, "su", <<id, Tk(at)>>, <<Tk(at)>>), <<"su", id, at>>)
SleepPoll ==
  /\ Can("sp")
  /\ \E id \in m.sl : \E w \in Wakers(id) \cup {k \in DOMAIN m.own : k = 10 * id + 5} :
       LET r == NodeElapsed(m, id)
           m2 == NodePoll(m, id, w)
       IN Happens(m2, Event(m2, "sp", <<id, w>>, <<IF r THEN 1 ELSE 0>>), <<"sp", id, w>>)
SleepReset ==
  /\ Can("sr")
  /\ \E id \in m.sl \ Spoken : \E at \in Ats :
       LET m2 == NodeReset(m, id, at)
       IN Happens(m2, Event(m2, "sr", <<id, Tk(at)>>, <<Tk(at)>>), <<"sr", id, at>>)
SleepDrop ==
  /\ Can("sd")
  /\ \E id \in m.sl \ Spoken :
       LET m2 == [NodeDrop(m, id) EXCEPT !.sl = @ \ {id}]
       IN Happens(m2, Event(m2, "sd", <<id>>, <<>>), <<"sd", id>>)

(* Intervals: m.iv[id] = [per, beh]; the sleep is node id *)
IvNew ==
  \E id \in LowestFree(Intervals, DOMAIN m.iv \cup DOMAIN m.node) : \E per \in Periods :
    \/ /\ Can("in")
       /\ LET m2 == [NodeNew(m, id, Now(m)) EXCEPT !.iv = Put(@, id, [per |-> per, beh |-> 0])]
          IN Happens(m2, Event(m2, "in", <<id, Tk(per)>>, <<>>), <<"in", id, per>>)
    \/ /\ Can("ia")
       /\ \E at \in Ats :
            LET m2 == [NodeNew(m, id, at) EXCEPT !.iv = Put(@, id, [per |-> per, beh |-> 0])]
            IN Happens(m2, Event(m2, "ia", <<id, Tk(at), Tk(per)>>, <<>>), <<"ia", id, at, per>>)
RECURSIVE Bits(_)
Bits(k) == IF k = 0 THEN <<>> ELSE Bits(k \div 2) \o <<k % 2>>
IvPoll ==
  /\ Can("ip")
  /\ \E id \in DOMAIN m.iv : \E w \in Wakers(id) :
       LET v == m.iv[id]
           t == m.dl[id]
           now == Now(m)
           k == IF now >= t THEN (now - t) \div v.per + 1 ELSE 1
           next == IF now > t + 5 * U
                   THEN (CASE v.beh = 0 -> t + v.per [] v.beh = 1 -> now + v.per
                           [] OTHER -> now + v.per - ((now - t) % v.per))
                   ELSE t + v.per
           m2 == IF NodeElapsed(m, id) THEN NodeReset(m, id, next) ELSE NodePoll(m, id, w)
           x == IF NodeElapsed(m, id) THEN [nx |-> Tk(t + k * v.per), kb |-> Bits(k)] ELSE [nx |-> TZero, kb |-> <<>>]
           r == IF NodeElapsed(m, id) THEN <<Tk(t)>> ELSE <<>>
       IN Happens(m2, Event(m2, "ip", <<id, w, 0>>, r) @@ x, <<"ip", id, w, 0>>)
IvReset ==
  /\ Can("ir")
  /\ \E id \in DOMAIN m.iv :
       LET m2 == NodeReset(m, id, Now(m) + m.iv[id].per) IN Happens(m2, Event(m2, "ir", <<id>>, <<>>), <<"ir", id>>)
IvPolicy ==
  /\ Can("ib")
  /\ \E id \in DOMAIN m.iv : \E b \in {0, 1, 2} \ {m.iv[id].beh} :
       LET m2 == [m EXCEPT !.iv[id].beh = b] IN Happens(m2, Event(m2, "ib", <<id, b>>, <<>>), <<"ib", id, b>>)
IvDrop ==
  /\ Can("iD")
  /\ \E id \in DOMAIN m.iv :
       LET m2 == [NodeDrop(m, id) EXCEPT !.iv = Del(@, id)] IN Happens(m2, Event(m2, "iD", <<id>>, <<>>), <<"iD", id>>)

(* Timeouts: m.to[id] = [kind, rdy, iw, done]; the delay is node id, an inner sleep node id + 100 *)
ToNew ==
  /\ Can("tn")
  /\ \E id \in LowestFree(Timeouts, DOMAIN m.to \cup DOMAIN m.node \cup {k - 100 : k \in DOMAIN m.node}) : \E d \in Durs : \E i \in Durs \cup {None} :
       LET kind == IF i = None THEN 0 ELSE 1
           m1 == IF kind = 0 THEN m ELSE NodeNew(m, id + 100, Now(m) + i)
           m2 == [NodeNew(m1, id, Now(m1) + d) EXCEPT !.to = Put(@, id, [kind |-> kind, rdy |-> FALSE, iw |-> 0, done |-> FALSE])]
           ii == IF kind = 0 THEN 0 ELSE i
       IN Happens(m2, Event(m2, "tn", <<id, 0, Tk(d), kind, Tk(ii)>>, <<>>), <<"tn", id, 0, d, kind, ii>>)
ToPoll ==
  /\ Can("tp")
  /\ \E id \in {k \in DOMAIN m.to : ~m.to[k].done} : \E w \in Wakers(id) :
       LET t == m.to[id]
           in == IF t.kind = 0 THEN t.rdy ELSE NodeElapsed(m, id + 100)
           m1 == IF t.kind = 0 THEN (IF in THEN m ELSE [m EXCEPT !.to[id].iw = w])
                 ELSE IF in THEN NodeDrop(m, id + 100) ELSE NodePoll(m, id + 100, w)
           el == NodeElapsed(m, id)
           m2 == IF in \/ el THEN [m1 EXCEPT !.to[id].done = TRUE] ELSE NodePoll(m1, id, w)
           polls == IF t.kind = 0 THEN 1 ELSE 0
           r == IF in THEN <<1, IF t.kind = 0 THEN 42 ELSE 77, polls>> ELSE <<IF el THEN 2 ELSE 0, 0, polls>>
       IN Happens(m2, Event(m2, "tp", <<id, w>>, r), <<"tp", id, w>>)
ToReady ==
  /\ Can("tc")
  /\ \E id \in {k \in DOMAIN m.to : m.to[k].kind = 0 /\ ~m.to[k].rdy /\ ~m.to[k].done} :
       LET m2 == Wake([m EXCEPT !.to[id].rdy = TRUE, !.to[id].iw = 0], m.to[id].iw)
       IN Happens(m2, Event(m2, "tc", <<id, 42>>, <<>>), <<"tc", id, 42>>)
\* into_inner drops the delay; the harness then polls the inner future once and drops it
ToInner ==
  /\ Can("ti")
  /\ \E id \in {k \in DOMAIN m.to : ~m.to[k].done} :
       LET t == m.to[id]
           in == IF t.kind = 0 THEN t.rdy ELSE NodeElapsed(m, id + 100)
           m1 == NodeDrop([m EXCEPT !.to = Del(@, id)], id)
           m2 == IF t.kind = 0 THEN m1 ELSE NodeDrop(IF in THEN m1 ELSE NodePoll(m1, id + 100, 10 * id), id + 100)
           r == IF in THEN <<1, IF t.kind = 0 THEN 42 ELSE 77>> ELSE <<0, 0>>
       IN Happens(m2, Event(m2, "ti", <<id, 10 * id>>, r), <<"ti", id, 10 * id>>)
ToDrop ==
  /\ Can("td")
  /\ \E id \in DOMAIN m.to :
       LET m1 == NodeDrop([m EXCEPT !.to = Del(@, id)], id)
           m2 == IF id + 100 \in DOMAIN m1.dl THEN NodeDrop(m1, id + 100) ELSE m1
       IN Happens(m2, Event(m2, "td", <<id>>, <<0>>), <<"td", id>>)

(* Delay queues. Keys are told to the contract from 1 on. *)
QInfo(m2, id, dr) ==
  LET k == SlabLen(m2.q[id])
  IN [qi |-> <<k, IF k = 0 THEN 1 ELSE 0, 1000>>, dr |-> dr]
\* a broken invariant of the queue is a panic of the code
QEvent(m2, id, o, a, r, dr) ==
  LET e == Event(m2, o, a, r) @@ QInfo(m2, id, dr) IN IF m2.q[id].bad THEN [e EXCEPT !.p = 1] ELSE e
MaxKey == IF Endless THEN 8 ELSE 2 * Values
QHas(id) == {k \in 0..MaxKey : k + 1 \in DOMAIN st.q[id].items}
\* a key the contract knows and the design does not: the code panics
QMissing(id, o) ==
  \E k \in QHas(id) : ~Present(m.q[id], k) /\ Happens(m, [QEvent(m, id, o, <<id, k + 1>>, <<>>, <<>>) EXCEPT !.p = 1], <<o, id>>)
QOld(id) == {k \in m.q[id].seen : k + 1 \notin DOMAIN st.q[id].items}
QVal(q, k) == At(q, k).val
QReturned(q, k) == <<1, k + 1, QVal(q, k), Tk(QAt(q, At(q, k).when))>>

QNew ==
  /\ Can("qn")
  /\ \E id \in LowestFree(Queues, DOMAIN m.q) :
       LET m2 == [m EXCEPT !.q = Put(@, id, NoQueue(Now(m)))]
       IN Happens(m2, QEvent(m2, id, "qn", <<id, 0, 0>>, <<>>, <<>>), <<"qn", id, 0, 0>>)
\* within what the wheel can hold
Holds(q, at) == Normal(q, at) - q.elapsed < Pow(WB, WL)
QPut ==
  \E id \in DOMAIN m.q :
    /\ NextVal(id) <= Values
    /\ \/ /\ Can("qi")
          /\ \E at \in {i \in Ats : Holds(m.q[id], i)} :
               LET r == QInsert(m, id, NextVal(id), at)
               IN Happens(r[1], QEvent(r[1], id, "qi", <<id, 1, NextVal(id), Tk(at)>>, <<r[2] + 1>>, <<>>), <<"qi", id, 1, NextVal(id), at, r[2]>>)
       \/ /\ Can("qI")
          /\ \E d \in {i \in Durs : Holds(m.q[id], Now(m) + i)} :
               LET r == QInsert(m, id, NextVal(id), Now(m) + d)
               IN Happens(r[1], QEvent(r[1], id, "qi", <<id, 0, NextVal(id), Tk(d)>>, <<r[2] + 1>>, <<>>), <<"qi", id, 0, NextVal(id), d, r[2]>>)
    /\ nv' = IF Endless THEN 0 ELSE nv + 1
QResetAt ==
  /\ Can("qr")
  /\ \E id \in DOMAIN m.q : \E k \in {x \in QHas(id) : Present(m.q[id], x)} : \E at \in {i \in Ats : Holds(m.q[id], i)} :
       LET m2 == QReset(m, id, k, at)
       IN Happens(m2, QEvent(m2, id, "qr", <<id, 1, k + 1, Tk(at)>>, <<>>, <<>>), <<"qr", id, 1, QVal(m.q[id], k), at>>)
QTake ==
  /\ Can("qm")
  /\ \E id \in DOMAIN m.q :
       \/ QMissing(id, "qm")
       \/ \E k \in {x \in QHas(id) : Present(m.q[id], x)} :
            LET m2 == QRemove(m, id, k)
            IN Happens(m2, QEvent(m2, id, "qm", <<id, k + 1>>, QReturned(m.q[id], k), <<>>), <<"qm", id, QVal(m.q[id], k)>>)
\* the key of an entry that has left: it may be the key of another by now
QTry ==
  /\ Can("qt")
  /\ \E id \in DOMAIN m.q : \E k \in QOld(id) :
       LET there == Present(m.q[id], k)
           m2 == IF there THEN QRemove(m, id, k) ELSE m
           r == IF there THEN QReturned(m.q[id], k) ELSE <<0>>
       IN Happens(m2, QEvent(m2, id, "qt", <<id, k + 1>>, r, <<>>), <<"qt", id, k>>)
\* remove by such a key panics
QWrong ==
  /\ Can("qM")
  /\ \E id \in DOMAIN m.q : \E k \in QOld(id) :
       IF Present(m.q[id], k)
       THEN LET m2 == QRemove(m, id, k)
            IN Happens(m2, QEvent(m2, id, "qm", <<id, k + 1>>, QReturned(m.q[id], k), <<>>), <<"qM", id, k>>)
       ELSE Happens(m, [QEvent(m, id, "qm", <<id, k + 1>>, <<>>, <<>>) EXCEPT !.p = 1], <<"qM", id, k>>)
QPolls ==
  /\ Can("qp")
  /\ \E id \in DOMAIN m.q : \E w \in Wakers(id) :
       LET r == QPoll(m, id, w)
           k == r[2]
           q == r[1].q[id]
           gone == k >= 0 /\ ~Present(q, k)
           m2 == IF gone THEN QSet(r[1], id, [q EXCEPT !.bad = TRUE]) ELSE IF k >= 0 THEN QSet(r[1], id, SlabRemove(q, k)) ELSE r[1]
           res == IF gone THEN <<0>> ELSE IF k >= 0 THEN QReturned(q, k) ELSE IF k = -1 THEN <<2>> ELSE <<0>>
       IN Happens(m2, QEvent(m2, id, "qp", <<id, w, 0>>, res, <<>>), <<"qp", id, w, 0>>)
QClears ==
  /\ Can("qc")
  /\ \E id \in DOMAIN m.q :
       LET m2 == QClear(m, id)
           dr == SeqOf({m.q[id].ent[i].val : i \in {j \in 1..Len(m.q[id].ent) : m.q[id].ent[j].occ}})
       IN Happens(m2, QEvent(m2, id, "qc", <<id>>, <<>>, dr), <<"qc", id>>)
QTidies ==
  \E id \in DOMAIN m.q :
    \/ /\ Can("qk")
       /\ LET m2 == [m EXCEPT !.q[id] = SlabCompact(@)] IN Happens(m2, QEvent(m2, id, "qk", <<id>>, <<>>, <<>>), <<"qk", id>>)
    \/ /\ Can("qs")
       /\ LET m2 == [m EXCEPT !.q[id] = SlabShrink(@)] IN Happens(m2, QEvent(m2, id, "qs", <<id>>, <<>>, <<>>), <<"qs", id>>)
QDrop ==
  /\ Can("qd")
  /\ \E id \in DOMAIN m.q :
       LET dr == SeqOf({m.q[id].ent[i].val : i \in {j \in 1..Len(m.q[id].ent) : m.q[id].ent[j].occ}})
           m1 == Delayed(m, id, None)
           m2 == [m1 EXCEPT !.q = Del(@, id)]
       IN Happens(m2, Event(m2, "qd", <<id>>, <<>>) @@ [qi |-> <<0, 1, 0>>, dr |-> dr], <<"qd", id>>)

(* The test clock *)
Pause ==
  /\ Can("pa") /\ ~m.paused
  /\ LET m1 == [m EXCEPT !.base = Now(m), !.paused = TRUE]
         m2 == WakeTimer(Start(m1))
     IN Happens(m2, Event(m2, "pa", <<>>, <<>>), <<"pa">>)
Resume ==
  /\ Can("re") /\ m.paused
  /\ LET m1 == [m EXCEPT !.unf = m.H, !.paused = FALSE]
         m2 == WakeTimer(Start(m1))
     IN Happens(m2, Event(m2, "re", <<>>, <<>>), <<"re">>)
Advance ==
  /\ Can("ad") /\ m.paused
  /\ \E d \in Advances :
       LET m1 == [m EXCEPT !.base = @ + d]
           m2 == WakeTimer(Start(m1))
       IN Happens(m2, Event(m2, "ad", <<Tk(d)>>, <<1>>), <<"ad", d, Now(m2)>>)

Operation ==
  \/ SleepNew \/ SleepPoll \/ SleepReset \/ SleepDrop \/ Reacts \/ Owns
  \/ IvNew \/ IvPoll \/ IvReset \/ IvPolicy \/ IvDrop
  \/ ToNew \/ ToPoll \/ ToReady \/ ToInner \/ ToDrop
  \/ QNew \/ QResetAt \/ QTake \/ QTry \/ QWrong \/ QPolls \/ QClears \/ QTidies \/ QDrop
  \/ Pause \/ Resume \/ Advance

Next ==
  /\ bad = {} /\ ~st.ended
  /\ ~Record \/ Endless \/ n < MaxOps
  /\ \/ HostMoves \/ HostRuns
     \/ Operation /\ Counts /\ UNCHANGED nv
     \/ QPut /\ Counts

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Refines == bad = {}

\* what the design keeps true inside
TimerInv ==
  /\ \A i \in DOMAIN m.dl : i \in DOMAIN m.node
  \* every deadline known to the timer has a callback in time for it
  /\ (~m.paused /\ m.started /\ Faults = {}) =>
       /\ DOMAIN m.cbs # {}
       /\ \A x \in Heaped(m) : \E c \in DOMAIN m.cbs :
            m.cbs[c].rq <= Max2(m.H, m.H + U * Min2(MaxDelay, Ms(Max2(0, m.node[x].hp[1] - Now(m)))) + U)
       /\ m.list # <<>> => \E c \in DOMAIN m.cbs : m.cbs[c].rq <= m.H
  /\ \A x \in DOMAIN m.node : m.node[x].hp # Nobody => m.node[x].hp[2] <= m.node[x].gen
QueueInv ==
  \A id \in DOMAIN m.q :
    LET q == m.q[id]
        keys == {k \in 0..MaxKey : Present(q, k)}
    IN /\ ~q.bad
       /\ \A i, j \in keys : i # j => Idx(q, i) # Idx(q, j)
       /\ Cardinality(keys) = SlabLen(q)
       /\ \A k \in keys :
            LET x == At(q, k)
            IN IF x.exp THEN \E i \in 1..Len(q.exp) : q.exp[i] = k
               ELSE /\ x.when >= q.elapsed
                    /\ LET l == LevelFor(q.elapsed, x.when)
                       IN \E i \in 1..Len(q.lv[l][Digit(x.when, l)]) : q.lv[l][Digit(x.when, l)][i] = k
       \* the delay wakes the queue in time for the first entry
       /\ \A k \in keys : ~At(q, k).exp => q.delay # None /\ m.dl[q.delay] <= QAt(q, At(q, k).when)

\* the schedules of MaxOps operations, for the replay: printed at the last one
Told == (Record /\ n' # n /\ (n' = MaxOps \/ st'.ended)) => PrintT(<<"SCHEDULE", ToJson(tr')>>)
=============================================================================
