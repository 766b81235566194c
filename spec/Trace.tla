------------------------------- MODULE Trace -------------------------------
(* Checks recorded executions of the real code against the contract. Each   *)
(* line of TRACES is one execution {"id", "min", "ev": [event, ...]}; each   *)
(* is an initial state, and each event is one step, which either is a step   *)
(* of WasmTimer or is reported as rejected, with the guards it breaks.       *)
EXTENDS WasmTimer, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES t, l, st, bad
vars == <<t, l, st, bad>>

Init == /\ t \in 1..Len(Traces)
        /\ l = 1
        /\ st = Init0(Traces[t].min, Traces[t].ev[1].now, Traces[t].ev[1].host)
        /\ bad = {}

Event == Traces[t].ev[l]

Next == /\ bad = {}
        /\ ~st.ended
        /\ l <= Len(Traces[t].ev)
        /\ LET e == Event
               j == Judge(st, e)
               b == Enforced(j.bad)
               \* a step that cannot be followed, for a reason that is no concern here
               lost == \E x \in j.bad : x[1] = "WITNESS"
           IN /\ bad' = b
              /\ IF b # {} THEN st' = st /\ PrintT(<<"REJECT", Traces[t].id, l, e.o, b>>)
                 ELSE IF lost THEN st' = [st EXCEPT !.ended = TRUE] /\ PrintT(<<"LOST", Traces[t].id, l, e.o>>)
                 ELSE /\ st' = j.st
                      /\ j.st.ended => PrintT(<<"ENDED", Traces[t].id, l, e.o>>)
        /\ l' = l + 1
        /\ t' = t

Spec == Init /\ [][Next]_vars

\* the whole execution was explained, or its rejection was printed
Accepted == bad = {}
\* fingerprint on the position only: the state is a function of it
Position == <<t, l, bad>>
=============================================================================
