---- MODULE Fs ----
(* Copying, moving and removing files in a directory of four names (the fourth is a directory).
   An entry is [k, g, x, to]: kind, the first name sharing the same file (0: none), contents <<length, tag>> (tag -1: none of the
   contents ever written), and the target of a symbolic link.  A fault makes one underlying call fail (class f, at its n-th use); `fired` tells
   whether it was met: 0 no, 1 only the crossing of filesystems (classes exdev...), 2 the failure. *)
EXTENDS Text
None == [k |-> "none", g |-> 0, x |-> <<0, 0>>, to |-> 0]
Dir == [None EXCEPT !.k = "dir", !.g = 4]
Init0 == [d |-> <<None, None, None, Dir>>]
C(len, tag) == IF len = 0 THEN <<0, 0>> ELSE <<len, tag>>
Inv(s) == \A i \in 1..4 : LET e == s.d[i] IN
  /\ e.k = "none" => e = None
  /\ e.k # "none" => e.g \in 1..i /\ s.d[e.g].g = e.g /\ s.d[e.g].x = e.x /\ s.d[e.g].k = e.k
(* the same directory, with every file named by the first of its names again *)
Canon(d) == [i \in 1..4 |-> IF d[i].g = 0 THEN d[i] ELSE [d[i] EXCEPT !.g = Min2({j \in 1..4 : d[j].g = d[i].g})]]
Res(d, n) == IF n \in 1..4 /\ d[n].k = "sym" THEN d[n].to ELSE n
(* set the contents of the file called n (created when absent) *)
Fill(d, n, x) == IF d[n].k = "file" THEN [i \in 1..4 |-> IF d[i].k = "file" /\ d[i].g = d[n].g THEN [d[i] EXCEPT !.x = x] ELSE d[i]]
                 ELSE [d EXCEPT ![n] = [k |-> "file", g |-> n, x |-> x, to |-> 0]]
(* dropping a name renames the group it was the first of *)
Drop1(d, n) == Canon([d EXCEPT ![n] = None])
GoodRes(d, n) == n \in 1..4 /\ d[n].k # "sym"
(* all that a failed call may leave behind: something in the destination file *)
OnlyDest(d, e, b) == /\ \A i \in 1..4 : i # b /\ (d[b].g = 0 \/ d[i].g # d[b].g) => e[i] = d[i]
                     /\ e[b].k \in {"file", d[b].k}
                     /\ Inv([d |-> e])
                     /\ d[b].k = "file" => \A i \in 1..4 : e[i] = [d[i] EXCEPT !.x = e[i].x]
Obs(o, d) == IF "r" \in DOMAIN o /\ "d" \in DOMAIN o.r THEN o.r.d ELSE d
R(rc, d, fired) == [s |-> [d |-> d], r |-> [rc |-> rc, d |-> d, fired |-> fired, fd |-> 0]]
Fired(o) == IF "r" \in DOMAIN o /\ "fired" \in DOMAIN o.r THEN {o.r.fired} ELSE {0} \cup (IF o.f = "none" THEN {} ELSE IF o.f \in {"exdev", "exdev-unlink", "exdev-write", "exdev-read", "exdev-open", "exdev-close"} THEN {1, 2} ELSE {2})
(* outcomes of a copy when no call fails: sets of <<rc, d>> *)
CopyOk(d, a, b, o) ==
  LET A == Res(d, a) B == Res(d, b) IN
  IF d[A].k \in {"none", "sym"} THEN {<<-1, d>>}      \* absent, or a link to itself
  ELSE IF d[B].k \in {"dir", "sym"} THEN {<<-1, d>>}
  ELSE IF d[A].k = "dir" THEN {<<-1, IF OnlyDest(d, Obs(o, d), B) THEN Obs(o, d) ELSE d>>}
  ELSE IF d[B].k = "file" /\ d[A].g = d[B].g THEN {<<-1, d>>, <<0, d>>}
  ELSE {<<0, Fill(d, B, d[A].x)>>}
Fails(d, b, o) == LET e == Obs(o, d) IN {<<-1, IF OnlyDest(d, e, b) THEN e ELSE d>>}
(* a failed move may also leave the destination as another name of the source *)
FailsM(d, a, b, o) == Fails(d, b, o) \cup (IF d[b].k = "none" /\ d[a].k # "none" THEN {<<-1, Canon([d EXCEPT ![b] = d[a]])>>} ELSE {})
MoveOk(d, a, b) == IF d[a].k \in {"none", "dir"} \/ d[b].k # "none" THEN {<<-1, d>>}
                   ELSE {<<0, Drop1([d EXCEPT ![b] = d[a]], a)>>}
(* across filesystems the destination is a new file with the contents *)
MoveX(d, a, b, o) == IF d[a].k \in {"none", "dir"} \/ d[b].k # "none" THEN {<<-1, d>>}
                  ELSE IF d[Res(d, a)].k # "file" THEN Fails(d, b, o)
                  ELSE {<<0, Drop1([d EXCEPT ![b] = [k |-> "file", g |-> 9, x |-> d[Res(d, a)].x, to |-> 0]], a)>>}
Do(s, o) ==
  LET d == s.d IN
  CASE o.op = "new" -> {R(0, Init0.d, 0)}
    [] o.op = "write" -> IF d[Res(d, o.a)].k \in {"dir", "sym"} THEN {R(-9, d, 0)} ELSE LET e == Fill(d, Res(d, o.a), C(o.len, o.tag)) IN {R(0, e, 0)}
    [] o.op = "hard" -> IF d[o.a].k # "file" \/ d[o.b].k # "none" THEN {R(-9, d, 0)} ELSE LET e == Canon([d EXCEPT ![o.b] = d[o.a]]) IN {R(0, e, 0)}
    [] o.op = "sym" -> IF d[o.b].k # "none" \/ d[o.a].k = "sym" \/ o.a = o.b \/ (\E i \in 1..4 : d[i].k = "sym") THEN {R(-9, d, 0)}
                       ELSE {R(0, [d EXCEPT ![o.b] = [k |-> "sym", g |-> o.b, x |-> <<0, 0>>, to |-> o.a]], 0)}
    [] o.op \in {"copy", "move", "remove"} /\ (o.a = 0 \/ (o.op # "remove" /\ o.b = 0)) -> {R(-1, d, 0)}
    [] o.op = "copy" -> UNION {{R(q[1], q[2], fi) : q \in CopyOk(d, o.a, o.b, o) \cup (IF fi = 2 THEN Fails(d, Res(d, o.b), o) ELSE {})} : fi \in Fired(o)}
    [] o.op = "move" ->
         UNION {{R(q[1], q[2], fi) : q \in
            IF fi = 0 THEN MoveOk(d, o.a, o.b)
            ELSE IF fi = 1 THEN MoveX(d, o.a, o.b, o)
            ELSE IF o.f = "exdev-unlink" THEN Fails(d, o.b, o)
            ELSE MoveOk(d, o.a, o.b) \cup MoveX(d, o.a, o.b, o) \cup FailsM(d, o.a, o.b, o)} : fi \in Fired(o)}
    [] o.op = "remove" -> UNION {{R(q[1], q[2], fi) : q \in
            IF fi = 2 THEN {<<-1, d>>} ELSE IF d[o.a].k \in {"none", "dir"} THEN {<<-1, d>>} ELSE {<<0, Drop1(d, o.a)>>}} : fi \in Fired(o)}
====
