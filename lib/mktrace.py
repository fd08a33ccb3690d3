#!/usr/bin/env python3
"""Write specs/<M>Trace.tla and .cfg: the acceptor of recorded traces for module M (Init0, Do(s, o), Inv(s));
a module <X>Mem defines MDo instead of Do."""
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = r'''---- MODULE %(M)sTrace ----
(* Acceptor of traces recorded from the real code: every recorded event (operation, arguments, observed
   result) must be a step of %(M)s, i.e. one of the outcomes of %(D)s in the current abstract state. *)
EXTENDS %(M)s, Json, TLC
VARIABLES s, l
Trace == ndJsonDeserialize("trace.ndjson")
TraceInit == s = %(I)s /\ l = 1
TraceStep ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         outcomes == IF e.op = "crash" THEN {} ELSE %(D)s(s, e)
         ok == {d \in outcomes : d.r = e.r}
     IN IF ok # {} THEN \E d \in ok : s' = d.s /\ l' = l + 1
        ELSE /\ PrintT(<<"MISMATCH", l, "recorded", e, "allowed", {d.r : d \in outcomes}, "in state", s>>)
             /\ FALSE
TraceSpec == TraceInit /\ [][TraceStep]_<<s, l>>
TraceInv == %(V)s(s)
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
'''
C = '''SPECIFICATION TraceSpec
INVARIANT TraceInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
'''
for m in sys.argv[1:]:
    mem = m.endswith('Mem')
    tree = m == 'JTreeMem'
    open(os.path.join(V, 'specs', m + 'Trace.tla'), 'w').write(T % dict(M=m, D='MDo' if mem else 'Do', I='MInit0' if tree else 'Init0', V='MInv' if tree else 'Inv'))
    open(os.path.join(V, 'specs', m + 'Trace.cfg'), 'w').write(C)
