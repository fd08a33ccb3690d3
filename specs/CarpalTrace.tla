---- MODULE CarpalTrace ----
(* Acceptor of traces recorded from the real code: every recorded event (operation, arguments, observed
   result) must be a step of Carpal, i.e. one of the outcomes of Do in the current abstract state. *)
EXTENDS Carpal, Json, TLC
VARIABLES s, l
Trace == ndJsonDeserialize("trace.ndjson")
TraceInit == s = Init0 /\ l = 1
TraceStep ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         outcomes == IF e.op = "crash" THEN {} ELSE Do(s, e)
         ok == {d \in outcomes : d.r = e.r}
     IN IF ok # {} THEN \E d \in ok : s' = d.s /\ l' = l + 1
        ELSE /\ PrintT(<<"MISMATCH", l, "recorded", e, "allowed", {d.r : d \in outcomes}, "in state", s>>)
             /\ FALSE
TraceSpec == TraceInit /\ [][TraceStep]_<<s, l>>
TraceInv == Inv(s)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
