---- MODULE Config ----
(* Configuration trees: the text language (sections, parameters, comments, substitution, includes), the editing and
   lookup interface, and saving.
   A node is [k, v, c]: key, value (NIL when it has none) and the sequence of its children.  The state holds the tree
   under test and the named resources that includes may name. *)
EXTENDS Text
Node(k, v, c) == [k |-> k, v |-> v, c |-> c]
Root == Node(NIL, NIL, <<>>)
Init0 == [t |-> Root, fs |-> <<>>]
INC == <<105, 110, 99, 108, 117, 100, 101>>
OINC == <<45>> \o INC
IsInc(k) == k = INC \/ k = OINC
Inv(s) == s.t.k = NIL /\ s.t.v = NIL

(* ------------------------------------------------------------------ lookups *)
Keys(n) == [i \in 1..Len(n.c) |-> n.c[i].k]
(* positions of the children called k, in order *)
Named(n, k) == SetToSortSeq({i \in 1..Len(n.c) : n.c[i].k = k}, LAMBDA a, b : a < b)
FirstNamed(n, k) == IF \E i \in 1..Len(n.c) : n.c[i].k = k THEN Min2({i \in 1..Len(n.c) : n.c[i].k = k}) ELSE 0
(* address (sequence of positions) of the n-th (from 0) entry designated by the dotted path p below node x; NIL if none *)
RECURSIVE Find(_, _, _)
Find(x, p, n) ==
  LET d == IndexOf(p, 1, 46) IN
  IF d = 0 THEN LET P == Named(x, p) IN IF n < Len(P) /\ n >= 0 THEN <<P[n + 1]>> ELSE NIL
  ELSE LET i == FirstNamed(x, Take(p, d - 1)) IN
       IF i = 0 THEN NIL ELSE LET r == Find(x.c[i], Drop(p, d), n) IN IF r = NIL THEN NIL ELSE <<i>> \o r
RECURSIVE At(_, _)
At(x, a) == IF a = <<>> THEN x ELSE At(x.c[a[1]], Tail(a))
RECURSIVE Valid(_, _)
Valid(x, a) == a = <<>> \/ (a[1] \in 1..Len(x.c) /\ Valid(x.c[a[1]], Tail(a)))
RECURSIVE Put(_, _, _)
Put(x, a, y) == IF a = <<>> THEN y ELSE [x EXCEPT !.c[a[1]] = Put(x.c[a[1]], Tail(a), y)]
ValOf(x, p) == LET a == Find(x, p, 0) IN IF a = NIL THEN NIL ELSE At(x, a).v

(* ------------------------------------------------------------------ values *)
RECURSIVE IndexSub(_, _, _)
IndexSub(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0 ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE IndexSub(s, p, i + 1)
(* ${name} is replaced by the value of the entry `name` among the siblings if there is one, of the root otherwise, and
   by nothing when there is none; [ok, v] *)
RECURSIVE Subst(_, _, _)
Subst(v, scope, root) ==
  LET b == IndexSub(v, <<36, 123>>, 1) IN
  IF b = 0 THEN [ok |-> TRUE, v |-> v]
  ELSE LET e == IndexOf(v, b + 2, 125) IN
       IF e = 0 THEN [ok |-> FALSE, v |-> <<>>]
       ELSE LET nm == SubSeq(v, b + 2, e - 1)
                x == IF Find(scope, nm, 0) # NIL THEN ValOf(scope, nm) ELSE ValOf(root, nm)
                r == Subst(Drop(v, e), scope, root)
            IN [ok |-> r.ok, v |-> Take(v, b - 1) \o (IF x = NIL THEN <<>> ELSE x) \o r.v]
(* set the value of the node at address a of tree t: [ok, t] *)
SetVal(t, a, v) ==
  IF v = NIL THEN [ok |-> TRUE, t |-> Put(t, a, [At(t, a) EXCEPT !.v = NIL])]
  ELSE LET r == Subst(v, At(t, IF a = <<>> THEN a ELSE Front(a)), t)
       IN IF r.ok THEN [ok |-> TRUE, t |-> Put(t, a, [At(t, a) EXCEPT !.v = TrimBlank(r.v)])] ELSE [ok |-> FALSE, t |-> t]
AddChild(t, a, k) == Put(t, a, [At(t, a) EXCEPT !.c = Append(@, Node(k, NIL, <<>>))])
(* add or set the entry k (dotted) = v below address a; a failure leaves the tree as it was: [ok, t, at] *)
RECURSIVE SetKey(_, _, _, _, _)
SetKey(t, a, k, v, ow) ==
  LET d == IndexOf(k, 1, 46)
      h == IF d = 0 THEN k ELSE Take(k, d - 1)
      i == FirstNamed(At(t, a), h)
      new == i = 0 \/ (d = 0 /\ ~ow)
      t1 == IF new THEN AddChild(t, a, h) ELSE t
      a1 == Append(a, IF new THEN Len(At(t1, a).c) ELSE i)
      r == IF d = 0 THEN SetVal(t1, a1, v) @@ [at |-> a1] ELSE SetKey(t1, a1, Drop(k, d), v, ow)
  IN IF r.ok THEN r ELSE [ok |-> FALSE, t |-> t, at |-> NIL]

(* ------------------------------------------------------------------ text *)
RECURSIVE Lines(_)
Lines(x) == IF x = <<>> THEN <<>>
            ELSE LET n == IndexOf(x, 1, 10) IN IF n = 0 THEN <<x>> ELSE <<Take(x, n - 1)>> \o Lines(Drop(x, n))
(* the first unescaped '#' starts a comment; "\#" stands for '#' *)
RECURSIVE NoComment(_, _, _)
NoComment(x, i, out) ==
  IF i > Len(x) THEN out
  ELSE IF x[i] = 35 THEN (IF i > 1 /\ x[i - 1] = 92 THEN NoComment(x, i + 1, Append(Front(out), 35)) ELSE out)
  ELSE NoComment(x, i + 1, Append(out, x[i]))
Cr(c) == c \in {10, 13}
StripCr(x) == LET l == LastNot(x, Cr) IN Take(x, l)
Uncomment(x) == IF IndexOf(x, 1, 35) = 0 THEN x ELSE NoComment(x, 1, <<>>)
Clean(x) == LET y == StripCr(TrimBlank(Uncomment(x))) f == FirstNot(y, Blank) IN IF f = 0 THEN <<>> ELSE Drop(y, f - 1)
MAXLINE == 2047     \* a longer line may be refused
MAXNEST == 20       \* a deeper nesting of includes may be refused

(* The environment of a load: fs: resources; inc: whether includes can be opened at all; pre: prefix added by the resolver,
   rmax: longest name it accepts; fo, fc: the open / close that fails (0: none); lim: whether the limits above are enforced.
   A load in progress: [ok, t, ls (remaining lines), no, nc (opens, closes so far), end (closing brace seen)] *)
ResOf(fs, n) == IF \E i \in 1..Len(fs) : fs[i].n = n THEN fs[CHOOSE i \in 1..Len(fs) : fs[i].n = n /\ \A j \in 1..i - 1 : fs[j].n # n].x ELSE NIL
RECURSIVE Plainly(_)
Plainly(n) == IF IsPrefixOf(<<46, 47>>, n) THEN Plainly(Drop(n, 2)) ELSE n
Lookup(E, n) == ResOf(E.fs, IF E.real THEN Plainly(n) ELSE n)
RECURSIVE Load(_, _, _, _, _, _)
RECURSIVE Include(_, _, _, _, _)
Fail(p) == [p EXCEPT !.ok = FALSE]
(* p: the load so far; a: address of the section; last: the key waiting for its section; sec: inside braces; chain: names being loaded *)
Load(E, p, a, last, sec, chain) ==
  IF p.ls = <<>> THEN (IF sec THEN Fail(p) ELSE p)
  ELSE
  LET raw == p.ls[1]
      ln == Clean(raw)
      q == [p EXCEPT !.ls = Tail(@)]
      kn == LET b == IndexP(ln, 1, Blank) IN IF b = 0 THEN Len(ln) ELSE b - 1
      k == Take(ln, kn)
      v == TrimBlank(Drop(ln, kn))
      rest == FirstNot(Tail(ln), Blank) = 0
  IN
  IF E.lim /\ Len(raw) > MAXLINE THEN Fail(p)
  ELSE IF ln = <<>> THEN Load(E, q, a, last, sec, chain)
  ELSE IF ln[1] = 123 THEN
    IF last = <<>> \/ ~rest THEN Fail(p)
    ELSE LET i == IF E.ow THEN FirstNamed(At(q.t, a), last) ELSE 0
             t1 == IF i = 0 THEN AddChild(q.t, a, last) ELSE q.t
             i1 == IF i = 0 THEN Len(At(t1, a).c) ELSE i
             s == Load(E, [q EXCEPT !.t = t1], Append(a, i1), <<>>, TRUE, chain)
         IN IF s.ok THEN Load(E, s, a, <<>>, sec, chain) ELSE s
  ELSE IF ln[1] = 125 THEN (IF ~sec \/ ~rest THEN Fail(p) ELSE q)
  ELSE IF IsInc(k) THEN
    IF v = <<>> THEN Fail(p)
    ELSE LET r == SetKey(q.t, a, k, v, FALSE) IN
         IF ~r.ok THEN Fail(p)
         ELSE LET s == Include(E, [q EXCEPT !.t = r.t], a, r.at, chain)
              IN IF s.ok THEN Load(E, s, a, <<>>, sec, chain)
                 ELSE IF k = OINC THEN Load(E, [s EXCEPT !.ok = TRUE, !.ls = q.ls], a, <<>>, sec, chain)
                 ELSE s
  ELSE IF v = <<>> THEN Load(E, q, a, k, sec, chain)
  ELSE LET r == SetKey(q.t, a, k, v, E.ow) IN IF r.ok THEN Load(E, [q EXCEPT !.t = r.t], a, <<>>, sec, chain) ELSE Fail(p)
Include(E, p, a, me, chain) ==
  LET path == At(p.t, me).v
      sec == At(p.t, a)
      dup == \E i \in 1..Len(sec.c) : sec.c[i].k = INC /\ Append(a, i) # me /\ sec.c[i].v = path
      uri == E.pre \o path
      x == Lookup(E, uri)
      p1 == [p EXCEPT !.tries = @ + 1]
  IN IF dup \/ ~E.inc \/ Len(uri) > E.rmax \/ (\E i \in 1..Len(chain) : chain[i] = uri) \/ (E.lim /\ Len(chain) > MAXNEST) THEN Fail(p)
     ELSE IF x = NIL \/ p1.tries = E.fo THEN Fail(p1)
     ELSE LET s == Load(E, [p1 EXCEPT !.ls = Lines(x), !.no = @ + 1], a, <<>>, FALSE, Append(chain, uri))
              c == s.nc + 1
          IN [s EXCEPT !.nc = c, !.ls = p.ls, !.ok = s.ok /\ c # E.fc]
(* loading text x into tree t *)
LoadInto(E, t, x) == Load(E, [ok |-> TRUE, t |-> t, ls |-> Lines(x), tries |-> 0, no |-> 0, nc |-> 0], <<>>, <<>>, FALSE, <<NIL>>)
(* opening the resource n, loading it, closing it *)
LoadRes(E, n) ==
  LET x == Lookup(E, n)
      p0 == [ok |-> TRUE, t |-> Root, ls |-> <<>>, tries |-> 1, no |-> 0, nc |-> 0]
  IN IF x = NIL \/ E.fo = 1 THEN Fail(p0)
     ELSE LET s == Load(E, [p0 EXCEPT !.ls = Lines(x), !.no = 1], <<>>, <<>>, FALSE, <<n>>)
              c == s.nc + 1
          IN [s EXCEPT !.nc = c, !.ok = s.ok /\ c # E.fc]

(* ------------------------------------------------------------------ saving *)
RECURSIVE Esc(_)
Esc(x) == IF x = <<>> THEN <<>> ELSE (IF x[1] = 35 THEN <<92, 35>> ELSE <<x[1]>>) \o Esc(Tail(x))
RECURSIVE Cat(_)
Cat(xs) == IF xs = <<>> THEN <<>> ELSE xs[1] \o Cat(Tail(xs))
RECURSIVE ToText(_)
ToText(n) ==
  LET root == n.k = NIL
      head == IF root \/ IsInc(n.k) THEN <<>> ELSE Esc(n.k) \o <<32>> \o (IF n.v = NIL THEN <<>> ELSE Esc(n.v)) \o <<10>>
      kids == Cat([i \in 1..Len(n.c) |-> ToText(n.c[i])])
  IN head \o (IF n.c = <<>> THEN <<>> ELSE IF root THEN kids ELSE <<123, 10>> \o kids \o <<125, 10>>)
RECURSIVE Pretty(_, _)
Pretty(n, lev) ==
  LET root == n.k = NIL
      ind == Rep(9, MaxN(0, lev - 1))
      head == ind \o (IF root \/ IsInc(n.k) THEN <<>> ELSE Esc(n.k) \o (IF n.v = NIL THEN <<>> ELSE <<9>> \o Esc(n.v)) \o <<10>>)
      kids == Cat([i \in 1..Len(n.c) |-> Pretty(n.c[i], lev + 1)])
  IN head \o (IF n.c = <<>> THEN <<>> ELSE IF root THEN kids ELSE ind \o <<123, 10>> \o kids \o ind \o <<125, 10>>)
(* trees the text language can express: a node has either a value or children (a section may not be empty) *)
PlainKey(k) == k # <<>> /\ ~IsInc(k) /\ k[1] \notin {123, 125} /\ \A i \in 1..Len(k) : k[i] \notin {32, 9, 10, 13, 92}
PlainVal(v) == v # NIL /\ v # <<>> /\ TrimBlank(v) = v /\ IndexSub(v, <<36, 123>>, 1) = 0 /\ (\A i \in 1..Len(v) : v[i] \notin {10, 13})
RECURSIVE Plain(_)
Plain(n) == \A i \in 1..Len(n.c) : LET x == n.c[i] IN
  PlainKey(x.k) /\ (IF x.c = <<>> THEN PlainVal(x.v) /\ IndexOf(x.k, 1, 46) = 0 ELSE x.v = NIL /\ Plain(x))
Env(s, o, inc, ow, lim) == [fs |-> s.fs, inc |-> inc, pre |-> <<>>, rmax |-> 1000, fo |-> 0, fc |-> 0, ow |-> ow, lim |-> lim, real |-> FALSE]
Lossless(t) == Plain(t) => LET r == LoadInto(Env([fs |-> <<>>], 0, FALSE, FALSE, FALSE), Root, ToText(t)) IN r.ok /\ r.t = t
PrintLossless(t) == Plain(t) => LET r == LoadInto(Env([fs |-> <<>>], 0, FALSE, FALSE, FALSE), Root, Pretty(t, 0)) IN r.ok /\ r.t = t

(* ------------------------------------------------------------------ typed readers *)
Lower(x) == [i \in 1..Len(x) |-> IF x[i] \in 65..90 THEN x[i] + 32 ELSE x[i]]
TRUEW == {<<121, 101, 115>>, <<101, 110, 97, 98, 108, 101>>, <<49>>, <<111, 110>>}
FALSEW == {<<110, 111>>, <<100, 105, 115, 97, 98, 108, 101>>, <<48>>, <<111, 102, 102>>}
(* the decimal integer a value starts with, in the range of int, is read exactly; anything else is refused (what follows
   the number is ignored, as by the conversion functions of M02) *)
RECURSIVE NegVal(_)
NegVal(d) == IF d = <<>> THEN 0 ELSE 10 * NegVal(Front(d)) - (d[Len(d)] - 48)
IntBody(v) == LET d == IF v # <<>> /\ v[1] \in {43, 45} THEN Tail(v) ELSE v f == FirstNot(d, Digit) IN IF f = 0 THEN d ELSE Take(d, f - 1)
NoZeros(d) == LET Z(c) == c = 48 f == FirstNot(d, Z) IN IF f = 0 THEN <<>> ELSE Drop(d, f - 1)
RECURSIVE LexLeq(_, _)
LexLeq(x, y) == x = <<>> \/ (y # <<>> /\ (x[1] < y[1] \/ (x[1] = y[1] /\ LexLeq(Tail(x), Tail(y)))))
INTMAX(neg) == <<50, 49, 52, 55, 52, 56, 51, 54, 52, IF neg THEN 56 ELSE 55>>
IntForm(v) == LET d == IntBody(v) z == NoZeros(d) IN
  d # <<>> /\ (Len(z) < 10 \/ (Len(z) = 10 /\ LexLeq(z, INTMAX(v[1] = 45))))
IntVal(v) == IF v[1] = 45 THEN NegVal(NoZeros(IntBody(v))) ELSE -NegVal(NoZeros(IntBody(v)))

(* ------------------------------------------------------------------ operations *)
RECURSIVE Pre(_, _)
Pre(n, a) == Cat([i \in 1..Len(n.c) |-> <<Append(a, i)>> \o Pre(n.c[i], Append(a, i))])
RECURSIVE Post(_, _)
Post(n, a) == Cat([i \in 1..Len(n.c) |-> Post(n.c[i], Append(a, i)) \o <<Append(a, i)>>])
Opts(a) == {FALSE} \cup (IF a THEN {TRUE} ELSE {})
(* could a limit matter *)
Limits(s, x) == Len(s.fs) > MAXNEST \/ Len(x) > MAXLINE \/ \E i \in 1..Len(s.fs) : Len(s.fs[i].x) > MAXLINE
Same(s, r) == {[s |-> s, r |-> r]}
Rc(b) == IF b THEN 0 ELSE -1
(* total order used by the recorded sorts: by key, then value, children last (ties are equal nodes or left open) *)
RECURSIVE Lex(_, _)
Lex(x, y) == IF x = <<>> THEN TRUE ELSE IF y = <<>> THEN FALSE ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE Lex(Tail(x), Tail(y))
SortKey(m, n) == IF m = "key" THEN n.k ELSE IF m = "rkey" THEN n.k ELSE IF n.v = NIL THEN <<>> ELSE n.v
LeqM(m, x, y) == IF m = "rkey" THEN Lex(SortKey(m, y), SortKey(m, x)) ELSE Lex(SortKey(m, x), SortKey(m, y))
Perms(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Cardinality({j \in 1..Len(x) : x[j] = x[i]}) = Cardinality({j \in 1..Len(y) : y[j] = x[i]})
Sorted(m, x) == SortSeq(x, LAMBDA a, b : LeqM(m, a, b) /\ ~LeqM(m, b, a))
Do(s, o) ==
  CASE o.op = "new" -> {[s |-> Init0, r |-> [rc |-> 0, live |-> 0]]}
    [] o.op = "fs" -> {[s |-> [s EXCEPT !.fs = Append(@, [n |-> o.n, x |-> o.x])], r |-> [rc |-> 0]]}
    (* a new tree replaces the old one only when the load succeeds *)
    [] o.op = "buf" ->
         {LET p == LoadInto(Env(s, o, FALSE, FALSE, lim), Root, o.t) IN
          [s |-> IF p.ok THEN [s EXCEPT !.t = p.t] ELSE s, r |-> [rc |-> Rc(p.ok), t |-> IF p.ok THEN p.t ELSE s.t]] : lim \in Opts(Limits([fs |-> <<>>], o.t))}
    [] o.op \in {"drv", "file"} ->
         {LET E == [Env(s, o, TRUE, o.ow, lim) EXCEPT !.pre = o.pre, !.rmax = o.rmax, !.fo = o.fo, !.fc = o.fc, !.real = o.op = "file"]
              p == LoadRes(E, o.n) IN
          [s |-> IF p.ok THEN [s EXCEPT !.t = p.t] ELSE s,
           r |-> [rc |-> Rc(p.ok), t |-> IF p.ok THEN p.t ELSE s.t] @@ IF o.op = "drv" THEN [opens |-> p.no, left |-> p.no - p.nc, bad |-> 0] ELSE [left |-> 0]]
          : lim \in Opts(Limits(s, <<>>))}
    (* loading into the existing tree; after a failure the driver starts over with an empty one *)
    [] o.op \in {"from", "fd"} ->
         {LET p == LoadInto([Env(s, o, o.op = "fd", o.ow, lim) EXCEPT !.real = o.op = "fd"], s.t, o.t) t1 == IF p.ok THEN p.t ELSE Root IN
          [s |-> [s EXCEPT !.t = t1], r |-> [rc |-> Rc(p.ok), t |-> t1] @@ IF o.op = "fd" THEN [left |-> 0] ELSE <<>>] : lim \in Opts(Limits(s, o.t))}
    (* the n-th memory allocation of the load fails: nothing stays allocated or open; the outcome is a failure, or the usual one *)
    [] o.op = "drvmem" ->
         LET E == [Env(s, o, TRUE, o.ow, FALSE) EXCEPT !.pre = o.pre]
             p == LoadRes(E, o.n)
         IN {[s |-> s, r |-> [rc |-> -1, t |-> s.t, left |-> 0, bad |-> 0, leak |-> 0]]} \cup
            IF p.ok THEN {[s |-> [s EXCEPT !.t = p.t], r |-> [rc |-> 0, t |-> p.t, left |-> 0, bad |-> 0, leak |-> 0]]} ELSE {}
    [] o.op = "baddrv" -> Same(s, [rc |-> -1, opens |-> 0])     \* no way to read, or no tree to deliver
    [] ~Valid(s.t, o.a) -> Same(s, [rc |-> -9])
    [] o.op \in {"add", "set"} ->
         LET r == SetKey(s.t, o.a, o.k, o.v, o.op = "set") IN {[s |-> [s EXCEPT !.t = r.t], r |-> [rc |-> Rc(r.ok), t |-> r.t]]}
    [] o.op = "setmem" ->   \* the same while the n-th allocation fails
         LET r == SetKey(s.t, o.a, o.k, o.v, o.ow) IN
         {[s |-> s, r |-> [rc |-> -1, t |-> s.t, leak |-> 0]]} \cup IF r.ok THEN {[s |-> [s EXCEPT !.t = r.t], r |-> [rc |-> 0, t |-> r.t, leak |-> 0]]} ELSE {}
    [] o.op = "setval" ->
         IF o.a = <<>> THEN Same(s, [rc |-> -9])
         ELSE LET r == SetVal(s.t, o.a, o.v) IN {[s |-> [s EXCEPT !.t = r.t], r |-> [rc |-> Rc(r.ok), t |-> r.t]]}
    [] o.op = "child" -> LET t == AddChild(s.t, o.a, o.k) IN {[s |-> [s EXCEPT !.t = t], r |-> [rc |-> 0, at |-> Append(o.a, Len(At(t, o.a).c)), t |-> t]]}
    [] o.op = "del" ->      \* delete the node at b as a child of the node at a
         IF ~Valid(s.t, o.b) THEN Same(s, [rc |-> -9])
         ELSE IF o.b # <<>> /\ Front(o.b) = o.a
              THEN LET t == Put(s.t, o.a, [At(s.t, o.a) EXCEPT !.c = RemoveAt(@, o.b[Len(o.b)])]) IN {[s |-> [s EXCEPT !.t = t], r |-> [rc |-> 0, t |-> t]]}
              ELSE Same(s, [rc |-> -1, t |-> s.t])
    [] o.op = "sort" ->
         LET c == At(s.t, o.a).c
             good(d) == Perms(c, d) /\ \A i \in 1..Len(d) - 1 : LeqM(o.m, d[i], d[i + 1])
             obs == IF "r" \in DOMAIN o /\ "t" \in DOMAIN o.r /\ Valid(o.r.t, o.a) THEN At(o.r.t, o.a).c ELSE <<>>
             d == IF good(obs) THEN obs ELSE Sorted(o.m, c)     \* the order of equal items is free
             t == Put(s.t, o.a, [At(s.t, o.a) EXCEPT !.c = d])
         IN {[s |-> [s EXCEPT !.t = t], r |-> [rc |-> 0, t |-> t]]}
    [] o.op = "get" ->      \* u_config_get_subkey_nth
         LET a == Find(At(s.t, o.a), o.k, o.n) IN Same(s, [rc |-> Rc(a # NIL), at |-> IF a = NIL THEN NIL ELSE o.a \o a])
    [] o.op = "nth" ->      \* u_config_get_child_n; any key when NULL
         LET x == At(s.t, o.a)
             P == IF o.k = NIL THEN [i \in 1..Len(x.c) |-> i] ELSE Named(x, o.k)
         IN Same(s, [rc |-> 0, at |-> IF o.n < Len(P) THEN Append(o.a, P[o.n + 1]) ELSE NIL])
    [] o.op = "val" -> Same(s, [rc |-> 0, v |-> ValOf(At(s.t, o.a), o.k)])
    [] o.op = "vali" ->
         LET v == ValOf(At(s.t, o.a), o.k) IN
         Same(s, IF v = NIL THEN [rc |-> 0, x |-> o.d] ELSE IF IntForm(v) THEN [rc |-> 0, x |-> IntVal(v)] ELSE [rc |-> -1])
    [] o.op = "valb" ->
         LET v == ValOf(At(s.t, o.a), o.k) IN
         Same(s, IF v = NIL THEN [rc |-> 0, x |-> o.d] ELSE IF Lower(v) \in TRUEW THEN [rc |-> 0, x |-> 1]
                 ELSE IF Lower(v) \in FALSEW THEN [rc |-> 0, x |-> 0] ELSE [rc |-> -1])
    [] o.op = "node" -> LET x == At(s.t, o.a) IN Same(s, [rc |-> 0, k |-> x.k, v |-> x.v, kids |-> x.c # <<>>])
    [] o.op = "walk" -> Same(s, [rc |-> 0, w |-> LET w == IF o.m = "pre" THEN Pre(At(s.t, o.a), o.a) ELSE Post(At(s.t, o.a), o.a) IN w])
    [] o.op = "save" -> LET x == ToText(At(s.t, o.a)) IN Same(s, IF Len(x) < o.n THEN [rc |-> 0, x |-> x] ELSE [rc |-> -1, x |-> NIL])
    [] o.op = "print" -> Same(s, [rc |-> 0, x |-> Pretty(At(s.t, o.a), o.n)])
    (* save, load the text again, and go on with the result *)
    [] o.op = "reload" ->
         LET x == IF o.m = "save" THEN ToText(s.t) ELSE Pretty(s.t, 0)
             p == LoadInto(Env(s, o, FALSE, FALSE, FALSE), Root, x)
             ok == IF Plain(s.t) THEN TRUE ELSE p.ok
             t1 == IF Plain(s.t) THEN s.t ELSE IF p.ok THEN p.t ELSE s.t
         IN {[s |-> [s EXCEPT !.t = t1], r |-> [rc |-> Rc(ok), t |-> t1]]}
====
