------------------------------ MODULE Endless ------------------------------
(***************************************************************************)
(* The design (Design.tla) without bounds on the number of operations and  *)
(* on time. Nothing depends on when something happens, only on how long    *)
(* ago it did, or how far ahead it is: times are seen from now, what is so *)
(* long past that it cannot matter any more all the same, generations as   *)
(* current or not, host callbacks as a bag. Seen like this (the VIEW) there *)
(* are finitely many states, and TLC explores every history there is,      *)
(* however long, of the objects in play.                                   *)
(***************************************************************************)
EXTENDS Design

CONSTANTS
  Back,       \* how far the consumers of intervals and queues fall behind at most, ticks
  Sample      \* every how many operations to print the schedule up to there, where recorded

\* ticks
Un(t) == IF t[1] # 0 THEN t[1] * 1000000 ELSE t[3] * (1000 * U) + t[4] \div (1000000 \div U)
\* what has been past for the slack of the contract is the same however long it has
Slk == U * (MinDelay + 1)
Far(t) == Max2(t, -Slk)
\* an instant of the contract, from now
Exact(t) == IF t[1] # 0 THEN t[1] * 1000000 ELSE Un(t) - Now(m)
Seen(t) == IF t[1] # 0 THEN t[1] * 1000000 ELSE Far(Un(t) - Now(m))
Since(k) == IF k = None THEN k ELSE Max2(k - Now(m), -Slk)
Loose(k) == IF k = None THEN <<>> ELSE <<Since(k)>>

\* whose deadlines are looked at exactly
Counted == DOMAIN m.iv \cup {m.q[k].delay : k \in DOMAIN m.q}
NodeSeen(k) ==
  LET x == m.node[k]
  IN <<Loose(x.at), x.fired, x.wk, IF x.hp = Nobody THEN <<>> ELSE <<Since(x.hp[1]), x.hp[2] = x.gen>>,
       IF k \notin DOMAIN m.dl THEN <<>> ELSE IF k \in Counted THEN <<m.dl[k] - Now(m)>> ELSE Loose(m.dl[k])>>
CbSeen(c) == <<Max2(m.cbs[c].due - m.H, 0), Max2(m.cbs[c].rq - m.H, 0)>>
Cbs == LET kinds == {CbSeen(c) : c \in DOMAIN m.cbs}
       IN [k \in kinds |-> Cardinality({c \in DOMAIN m.cbs : CbSeen(c) = k})]

\* the wheel turns round: once all of its slots are passed it is as it was
Turn == Pow(WB, WL)
QSeen(id) ==
  LET q == m.q[id]
      b == (q.elapsed \div Turn) * Turn
      s == st.q[id]
  IN <<[q EXCEPT !.start = @ + U * b - Now(m), !.elapsed = @ - b, !.wnow = @ - b,
                 !.ent = [i \in DOMAIN @ |-> IF @[i].occ THEN [@[i] EXCEPT !.when = @ - b] ELSE @[i]]],
       [k \in DOMAIN s.items |-> <<s.items[k].val, Exact(s.items[k].d), Exact(s.items[k].hi), Exact(s.items[k].base)>>],
       s.wk, s.parked, s.ws, Seen(s.pbase), Seen(s.ebase), s.spin, IF s.spin = 0 THEN 0 ELSE Seen(s.spt)>>

Design_ ==
  <<m.paused, m.started, m.reg, m.list, [k \in DOMAIN m.node |-> NodeSeen(k)], Cbs, m.sl, m.iv, m.to, m.re, m.own, m.owned, m.stuck>>
Contract ==
  <<st.paused, st.sync, st.everp, st.settled, st.touched, st.ended, st.el,
    IF st.paused THEN 0 ELSE (Un(st.now) - Un(st.rb)) - (Un(st.host) - Un(st.rh)), Seen(st.res), Seen(st.cut),
    [k \in DOMAIN st.sl |-> <<Seen(st.sl[k].dl), Seen(st.sl[k].base), st.sl[k].wk, st.sl[k].rst>>],
    [k \in DOMAIN st.iv |-> <<Exact(st.iv[k].dl), Seen(st.iv[k].base), st.iv[k].per, st.iv[k].beh, st.iv[k].wk, st.iv[k].src>>],
    [k \in DOMAIN st.to |-> [st.to[k] EXCEPT !.dl = Seen(@), !.idl = Seen(@), !.base = Seen(@)]],
    st.pass, [w \in DOMAIN st.gone |-> Seen(st.gone[w])]>>
EView == <<Design_, Contract, [id \in DOMAIN m.q |-> QSeen(id)], bad>>

\* what the view leaves out of the contract's state follows from the design's
Agree ==
  /\ st.now = Tk(Now(m)) /\ st.host = Tk(m.H)
  /\ st.arm = [c \in DOMAIN m.cbs |-> Tk(m.cbs[c].due)]
  /\ \A id \in DOMAIN m.q : st.q[id].start = Tk(m.q[id].start)

\* nobody is further behind than that (and keys have not become larger than looked at)
NotBehind ==
  /\ m = m /\ st = st   \* (has TLC evaluate what the view does not look at)
  /\ \A id \in DOMAIN m.iv : m.dl[id] >= Now(m) - Back
  /\ \A id \in DOMAIN m.q : /\ m.q[id].nki < MaxKey
                            /\ QAt(m.q[id], m.q[id].elapsed) >= Now(m) - Back
                            /\ \A k \in DOMAIN st.q[id].items : Un(st.q[id].items[k].d) >= Now(m) - Back

\* callbacks do not pile up, ever
CONSTANT MaxCbs
NoPile == Cardinality(DOMAIN m.cbs) <= MaxCbs

\* schedules for the replay: the shortest ones that lead to a state, and an operation in it
Sampled == (Record /\ tr'[Len(tr')].x[1] \notin {"host", "cbx"} /\ RandomElement(1..Sample) = 1) => PrintT(<<"SCHEDULE", ToJson(tr')>>)
=============================================================================
