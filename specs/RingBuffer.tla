---- MODULE RingBuffer ----
(* Ring buffer (srcs/toolbox/rb.c).  The accepted bytes form a stream; position p of the stream carries the byte
   value p % 251, so the stored bytes are always a contiguous interval of stream positions [pos - n, pos).
   off is the read offset inside the backing store: it does not influence any result, but makes the
   exhaustive exploration visit every wrap-around situation. *)
EXTENDS Integers, Sequences

PAGE == 4096
VAL  == 251                      \* byte values of the stream cycle through 0..250

Init0 == [kind |-> "none", cap |-> 0, pos |-> 0, n |-> 0, off |-> 0]

Min(a, b) == IF a < b THEN a ELSE b
(* the bytes at stream positions lo..lo+k-1, run-length encoded: ascending values modulo VAL *)
Run(lo, k) == IF k = 0 THEN <<>> ELSE <<lo % VAL, k>>

Obs(s) == [size |-> s.cap, ready |-> s.n, avail |-> s.cap - s.n]
Res(s, rc, run) == [rc |-> rc, run |-> run, obs |-> Obs(s)]

Contiguous(kind) == kind # "malloc"
FastOk(kind) == kind \in {"mallocc", "mmapc"}

New(o) ==
  LET mm  == o.kind \in {"mmap", "mmapc"}
      cap == IF mm THEN (IF o.hint = 0 THEN PAGE ELSE ((o.hint + PAGE - 1) \div PAGE) * PAGE) ELSE o.hint
  IN IF cap = 0 THEN [s |-> Init0, r |-> [rc |-> -1, run |-> <<>>, obs |-> Obs(Init0)]]
     ELSE LET t == [kind |-> o.kind, cap |-> cap, pos |-> 0, n |-> 0, off |-> 0]
          IN [s |-> t, r |-> Res(t, 0, <<>>)]

(* accepts min(requested, free) bytes; more than the whole capacity is refused *)
Write(s, k) ==
  IF k > s.cap THEN [s |-> s, r |-> Res(s, -1, <<>>)]
  ELSE LET w == Min(k, s.cap - s.n)
           t == [s EXCEPT !.pos = @ + w, !.n = @ + w]
       IN [s |-> t, r |-> Res(t, w, <<>>)]

Consume(s, k) == [s EXCEPT !.n = @ - k, !.off = (@ + k) % s.cap]

Read(s, k) ==
  IF k > s.cap THEN [s |-> s, r |-> Res(s, -1, <<>>)]
  ELSE LET g == Min(k, s.n)
           t == Consume(s, g)
       IN [s |-> t, r |-> Res(t, g, Run(s.pos - s.n, g))]

(* zero-copy read: rc is the count left by the call; NULL leaves it untouched when refused and 0 when empty *)
FRes(s, null, rc, run) == [null |-> null, rc |-> rc, run |-> run, obs |-> Obs(s)]
Fast(s, k) ==
  IF ~FastOk(s.kind) \/ k > s.cap THEN [s |-> s, r |-> FRes(s, TRUE, k, <<>>)]
  ELSE LET g == Min(k, s.n)
           t == Consume(s, g)
       IN [s |-> t, r |-> FRes(t, g = 0, g, Run(s.pos - s.n, g))]

Clear(s) == LET t == [s EXCEPT !.n = 0, !.off = 0] IN [s |-> t, r |-> Res(t, 0, <<>>)]

Free(s) == [s |-> Init0, r |-> [rc |-> 0, run |-> <<>>, obs |-> Obs(Init0)]]

Do(s, o) ==
  CASE o.op = "new"   -> {New(o)}
    [] o.op = "write" -> {Write(s, o.n)}
    [] o.op = "read"  -> {Read(s, o.n)}
    [] o.op = "fast"  -> {Fast(s, o.n)}
    [] o.op = "clear" -> {Clear(s)}
    [] o.op = "free"  -> {Free(s)}
    [] OTHER -> {}

Inv(s) == /\ s.n \in 0..s.cap
          /\ s.pos >= s.n
          /\ s.kind # "none" => s.off \in 0..(s.cap - 1)
====
