---- MODULE Array ----
(* Dynamic array (srcs/toolbox/array.c).  a: the indices written so far with their last value; lb: number of slots
   known to exist.  Values are tokens 0..255 that the driver maps to values of the element type. *)
EXTENDS Integers, Sequences
Init0 == [type |-> "none", lb |-> 0, a |-> [i \in {} |-> 0]]
HUGE == {-1, -2, -3}            \* stand for indices at the limits of the address space: always refused
Val(s, i) == IF i \in DOMAIN s.a THEN s.a[i] ELSE 0
R(rc, v) == [rc |-> rc, v |-> v]
UNTOUCHED == -1
Max(x, y) == IF x > y THEN x ELSE y

New(o) == LET t == [Init0 EXCEPT !.type = o.type, !.lb = o.n] IN [s |-> t, r |-> R(0, UNTOUCHED)]
(* the previous value is reported; an accessor of another type is refused without effect *)
Set(s, o) ==
  IF o.acc # s.type \/ o.i \in HUGE THEN [s |-> s, r |-> R(-1, UNTOUCHED)]
  ELSE [s |-> [s EXCEPT !.a = [j \in DOMAIN s.a \cup {o.i} |-> IF j = o.i THEN o.v ELSE s.a[j]],
                        !.lb = Max(@, o.i + 1)],
        r |-> R(0, IF o.old THEN Val(s, o.i) ELSE UNTOUCHED)]
Get(s, o) ==
  IF o.acc # s.type \/ o.i \in HUGE THEN {[s |-> s, r |-> R(-1, UNTOUCHED)]}
  ELSE IF o.i < s.lb THEN {[s |-> s, r |-> R(0, Val(s, o.i))]}
  ELSE {[s |-> s, r |-> R(-1, UNTOUCHED)],                              \* past the end: refused
        [s |-> [s EXCEPT !.lb = o.i + 1], r |-> R(0, 0)]}               \* inside the spare slots of a growth
Resize(s, o) ==
  IF o.i \in HUGE THEN [s |-> s, r |-> R(-1, UNTOUCHED)]
  ELSE [s |-> [s EXCEPT !.lb = Max(@, o.i + 1)], r |-> R(0, UNTOUCHED)]
Do(s, o) ==
  CASE o.op = "new"    -> {New(o)}
    [] o.op = "set"    -> {Set(s, o)}
    [] o.op = "get"    -> Get(s, o)
    [] o.op = "resize" -> {Resize(s, o)}
    [] OTHER -> {}
Inv(s) == \A i \in DOMAIN s.a : i < s.lb
====
