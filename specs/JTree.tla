---- MODULE JTree ----
(* JSON trees built, edited, indexed and encoded through the public interface (srcs/toolbox/json.c).  Nodes are named by the
   numbers the session gives them; s.n maps a live node to its parent (0: top level), children, key, type and stored value. *)
EXTENDS JText
Fresh == [n |-> <<>>, ix |-> {}]
TInit0 == Fresh
Ids(s) == DOMAIN s.n
Cont(ty) == ty \in {"o", "a"}
RECURSIVE Top(_, _), Sub(_, _), Flat(_, _, _, _)
Top(s, i) == IF s.n[i].p = 0 THEN i ELSE Top(s, s.n[i].p)
(* the subtree of i in preorder: ids with their level *)
Flat(s, i, l, post) ==
  LET kids == FlattenSeq([j \in 1..Len(s.n[i].ch) |-> Flat(s, s.n[i].ch[j], l + 1, post)])
  IN IF post THEN Append(kids, <<i, l>>) ELSE <<<<i, l>>>> \o kids
Sub(s, i) == {x[1] : x \in Range(Flat(s, i, 0, FALSE))}
Indexed(s, i) == Top(s, i) \in s.ix
(* ---- values ---- *)
GoodStr(v) == StrEnd(Append(v, 34), 1) = Len(v) + 1
GoodNum(v) == v # <<>> /\ NumEnd(v, 1) = Len(v) + 1
Val(x) == CASE x.ty \in {"s", "n"} -> x.v [] x.ty = "t" -> TRUE_ [] x.ty = "f" -> FALSE_ [] x.ty = "0" -> NULL_ [] OTHER -> NIL
RECURSIVE ToInt(_)
ToInt(d) == IF d = <<>> THEN 0 ELSE 10 * ToInt(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
RECURSIVE DropZ(_), DropTZ(_)
DropZ(d) == IF d # <<>> /\ d[1] = 48 THEN DropZ(Tail(d)) ELSE d
DropTZ(d) == IF d # <<>> /\ d[Len(d)] = 48 THEN DropTZ(SubSeq(d, 1, Len(d) - 1)) ELSE d
(* the number a literal stands for: (-1)^neg * 0.ds * 10^e *)
Norm(v) ==
  LET neg == v[1] = 45
      i == IF neg THEN 2 ELSE 1
      a == Digits(v, i)
      f == IF At(v, a) = 46 THEN Digits(v, a + 1) ELSE a
      int == SubSeq(v, i, a - 1)
      frac == IF f > a THEN SubSeq(v, a + 1, f - 1) ELSE <<>>
      ex == IF At(v, f) \in {69, 101} THEN (LET y == IF At(v, f + 1) \in {43, 45} THEN f + 2 ELSE f + 1
                                                e == ToInt(SubSeq(v, y, Len(v)))
                                            IN IF At(v, f + 1) = 45 THEN -e ELSE e) ELSE 0
      all == int \o frac
      lead == Len(all) - Len(DropZ(all))
      ds == DropTZ(DropZ(all))
  IN [neg |-> neg, ds |-> ds, e |-> IF ds = <<>> THEN 0 ELSE Len(int) - lead + ex]
Plain(v) == \A i \in 1..Len(v) : v[i] \notin {46, 69, 101}
SmallExp(v) == \/ \A i \in 1..Len(v) : v[i] \notin {69, 101}
               \/ \E i \in 1..Len(v) : v[i] \in {69, 101} /\ Len(v) - i <= 3
(* what the numeric accessor must report: decimal text of an integer literal that fits a long, failure when it does not *)
MaxL == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
RECURSIVE LexLe(_, _)
LexLe(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLe(Tail(a), Tail(b))
FitsLong(neg, d) == Len(d) < 19 \/ (Len(d) = 19 /\ LexLe(d, IF neg THEN [MaxL EXCEPT ![19] = 56] ELSE MaxL))
IntOk(x, r) ==
  IF x.ty # "n" THEN r = NIL
  ELSE IF ~(GoodNum(x.v) /\ Plain(x.v)) THEN TRUE
  ELSE LET neg == x.v[1] = 45
           d == DropZ(IF neg THEN Tail(x.v) ELSE x.v)
       IN IF ~FitsLong(neg, d) THEN r = NIL
          ELSE r = (IF d = <<>> THEN <<48>> ELSE IF neg THEN <<45>> \o d ELSE d)
RealOk(x, r) ==
  IF x.ty # "n" THEN r = NIL
  ELSE IF ~(GoodNum(x.v) /\ SmallExp(x.v)) THEN TRUE
  ELSE LET m == Norm(x.v) IN
       IF Len(m.ds) > 15 \/ m.e > 250 \/ m.e < -250 THEN TRUE ELSE r # NIL /\ Norm(r) = m
BoolOf(x) == CASE x.ty = "t" -> 1 [] x.ty = "f" -> 0 [] OTHER -> -1
(* printf's %g of a number with at most six significant digits *)
FmtG(m) ==
  LET X == m.e - 1
      sgn == IF m.neg THEN <<45>> ELSE <<>>
      abs == IF X < 0 THEN -X ELSE X
      e2 == IF abs < 10 THEN <<48>> \o Dec(abs) ELSE Dec(abs)
  IN IF m.ds = <<>> THEN sgn \o <<48>>
     ELSE IF X < -4 \/ X >= 6
          THEN sgn \o <<m.ds[1]>> \o (IF Len(m.ds) > 1 THEN <<46>> \o Tail(m.ds) ELSE <<>>) \o <<101, IF X < 0 THEN 45 ELSE 43>> \o e2
     ELSE IF m.e <= 0 THEN sgn \o <<48, 46>> \o Rep(48, -m.e) \o m.ds
     ELSE IF Len(m.ds) <= m.e THEN sgn \o m.ds \o Rep(48, m.e - Len(m.ds))
     ELSE sgn \o SubSeq(m.ds, 1, m.e) \o <<46>> \o SubSeq(m.ds, m.e + 1, Len(m.ds))
(* ---- trees as the decoder sees them ---- *)
Pre(s, i) ==
  LET f == Flat(s, i, 0, FALSE) IN
  [j \in 1..Len(f) |-> LET x == s.n[f[j][1]] IN
     Node(f[j][2], IF j > 1 /\ s.n[x.p].ty = "o" THEN x.k ELSE NIL, x.ty, Val(x))]
ValidTree(n) == \A i \in 1..Len(n) :
  /\ n[i].k # NIL => GoodStr(n[i].k) /\ Len(n[i].k) < TokenSz
  /\ n[i].ty = "s" => GoodStr(n[i].v) /\ Len(n[i].v) < TokenSz
  /\ n[i].ty = "n" => GoodNum(n[i].v) /\ Len(n[i].v) < TokenSz
(* ---- names ---- *)
RECURSIVE Fqn(_, _)
Fqn(s, i) ==
  LET x == s.n[i] IN
  IF x.p = 0 THEN <<46>>
  ELSE LET p == s.n[x.p] IN
       IF p.ty = "o" THEN Fqn(s, x.p) \o <<46>> \o x.k
       ELSE Fqn(s, x.p) \o <<91>> \o Dec((CHOOSE j \in 1..Len(p.ch) : p.ch[j] = i) - 1) \o <<93>>
FqnSz == 256
ByName(s, top, name) ==
  LET f == Flat(s, top, 0, FALSE)
      hit == {j \in 1..Len(f) : Fqn(s, f[j][1]) = name}
  IN IF Len(name) >= FqnSz \/ hit = {} THEN 0 ELSE f[Min2(hit)][1]
Lookup(s, i, name) ==
  IF ~Indexed(s, i) THEN 0
  ELSE LET a == ByName(s, Top(s, i), name) IN
       IF a # 0 \/ s.n[i].p = 0 THEN a ELSE ByName(s, Top(s, i), Fqn(s, i) \o name)
(* ---- the printed tree: a line per node in preorder ---- *)
TypeName(ty) == CASE ty = "o" -> <<111, 98, 106, 101, 99, 116>> [] ty = "a" -> <<97, 114, 114, 97, 121>> [] ty = "s" -> <<115, 116, 114, 105, 110, 103>>
                  [] ty = "n" -> <<110, 117, 109, 98, 101, 114>> [] ty = "t" -> TRUE_ [] ty = "f" -> FALSE_ [] ty = "0" -> NULL_
                  [] OTHER -> <<117, 110, 107, 110, 111, 119, 110>>
(* "true", "false" and "null" may show a value or not *)
Lines1(x, d) == LET h == Rep(32, IF d = 0 THEN 1 ELSE d) \o <<32>> \o TypeName(x.ty) \o <<32>> \o x.k IN
  IF Cont(x.ty) THEN {Append(h, 10)}
  ELSE {h \o <<32, 58, 32, 39>> \o v \o <<39, 10>> : v \in IF x.ty \in {"s", "n"} THEN {x.v} ELSE {<<>>, x.v, TypeName(x.ty)}}
RECURSIVE Printed(_, _, _, _, _)
Printed(s, f, j, t, p) ==
  IF j > Len(f) THEN p = Len(t) + 1
  ELSE \E l \in Lines1(s.n[f[j][1]], f[j][2]) : SubSeq(t, p, Min2({Len(t), p + Len(l) - 1})) = l /\ Printed(s, f, j + 1, t, p + Len(l))
(* ---- operations ---- *)
RECURSIVE SetToSortedSeq(_)
SetToSortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == Min2(S) IN <<m>> \o SetToSortedSeq(S \ {m})
Count(x) == IF x.ty = "a" THEN Len(x.ch) ELSE 0
Snap(s) == LET q == SetToSortedSeq(Ids(s)) IN [j \in 1..Len(q) |-> LET x == s.n[q[j]] IN <<q[j], Count(x), IF Cont(x.ty) THEN x.ch ELSE <<>>>>]
Out(s, rc) == [s |-> s, r |-> [rc |-> rc, snap |-> Snap(s)]]
NewNode(p, k, ty, v) == [p |-> p, ch |-> <<>>, k |-> k, ty |-> ty, v |-> v]
PutN(s, i, x) == [s EXCEPT !.n = [j \in Ids(s) \cup {i} |-> IF j = i THEN x ELSE s.n[j]]]
DropN(s, S) == [s EXCEPT !.n = [j \in Ids(s) \ S |-> s.n[j]], !.ix = @ \ S]
Unlink(s, i) == LET p == s.n[i].p IN
                IF p = 0 THEN s ELSE [s EXCEPT !.n[p].ch = SelectSeq(@, LAMBDA c : c # i)]
KeyOf(k) == IF k = NIL THEN <<>> ELSE k
NewVal(o) == CASE o.ty \in {"s", "n", "i"} -> o.v [] o.ty = "r" -> FmtG(Norm(o.v)) [] OTHER -> <<>>
NewOk(o) == /\ Len(KeyOf(o.k)) < TokenSz \/ o.ty = "u"
            /\ o.ty = "s" => o.v # NIL /\ Len(o.v) < TokenSz /\ GoodStr(o.v)
            /\ o.ty = "n" => o.v # NIL /\ Len(o.v) < TokenSz /\ GoodNum(o.v)
            /\ o.ty = "r" => GoodNum(o.v)
NewTy(ty) == IF ty \in {"i", "r"} THEN "n" ELSE ty
Tys == {"o", "a", "s", "n", "t", "f", "0", "u"}
(* the decoded tree, numbered in preorder from n0 *)
Graft(s, n0, t) ==
  LET n == Tree(t)
      par(i) == IF i = 1 THEN 0 ELSE n0 - 1 + Parent(n, i)
      ch(i) == SetToSortedSeq({n0 - 1 + j : j \in {j \in i + 1..After(n, i) - 1 : n[j].d = n[i].d + 1}})
      x(i) == [p |-> par(i), ch |-> ch(i), k |-> KeyOf(n[i].k), ty |-> n[i].ty, v |-> IF n[i].ty \in {"s", "n"} THEN n[i].v ELSE <<>>]
  IN [s EXCEPT !.n = [j \in Ids(s) \cup n0..n0 + Len(n) - 1 |-> IF j \in n0..n0 + Len(n) - 1 THEN x(j - n0 + 1) ELSE s.n[j]]]
Look(x, r) == /\ r.fwd = (IF Cont(x.ty) THEN x.ch ELSE <<>>)
              /\ r.bwd = Reverse(r.fwd)
              /\ r.first = (IF r.fwd = <<>> THEN 0 ELSE r.fwd[1])
              /\ r.last = (IF r.fwd = <<>> THEN 0 ELSE r.fwd[Len(r.fwd)])
              /\ r.count = Count(x) /\ r.val = Val(x) /\ IntOk(x, r.int) /\ RealOk(x, r.real) /\ r.bool = BoolOf(x)
TDo(s, o) ==
  CASE o.op = "new" ->
       {IF NewOk(o) THEN Out(PutN(s, o.n, NewNode(0, IF o.ty = "u" THEN <<>> ELSE KeyOf(o.k), NewTy(o.ty), NewVal(o))), 0) ELSE Out(s, -1)}
    [] o.op = "dec" -> {IF Decodes(o.t) THEN LET g == Graft(s, o.n, o.t) IN [s |-> g, r |-> [rc |-> 0, n |-> Len(Tree(o.t)), snap |-> Snap(g)]]
                        ELSE Out(s, -1)}
    [] o.op = "add" ->
       LET h == s.n[o.n]
           ok == Cont(h.ty) /\ ~Indexed(s, o.n) /\ s.n[o.c].p = 0 /\ o.c \notin s.ix
       IN {IF ok THEN Out([s EXCEPT !.n[o.n].ch = Append(@, o.c), !.n[o.c].p = o.n], 0) ELSE Out(s, -1)}
    [] o.op = "remove" -> {IF Indexed(s, o.n) THEN Out(s, -1) ELSE Out(DropN(Unlink(s, o.n), Sub(s, o.n)), 0)}
    [] o.op = "free" -> {Out(DropN(s, Sub(s, o.n)), 0)}
    [] o.op = "setkey" -> {IF Indexed(s, o.n) \/ Len(KeyOf(o.k)) >= TokenSz THEN Out(s, -1) ELSE Out([s EXCEPT !.n[o.n].k = KeyOf(o.k)], 0)}
    [] o.op = "setval" ->
       LET ty == s.n[o.n].ty IN
       {IF o.v = NIL THEN Out(s, -1)
        ELSE IF ty \notin {"s", "n"} THEN Out(s, 0)
        ELSE IF Len(o.v) >= TokenSz \/ (o.chk = 1 /\ ~(IF ty = "s" THEN GoodStr(o.v) ELSE GoodNum(o.v))) THEN Out(s, -1)
        ELSE Out([s EXCEPT !.n[o.n].v = o.v], 0)}
    [] o.op = "settype" -> {IF Indexed(s, o.n) \/ o.ty \notin Tys THEN Out(s, -1) ELSE Out([s EXCEPT !.n[o.n].ty = o.ty], 0)}
    [] o.op = "index" -> {IF Indexed(s, o.n) THEN Out(s, 0) ELSE IF s.n[o.n].p # 0 THEN Out(s, -1) ELSE Out([s EXCEPT !.ix = @ \cup {o.n}], 0)}
    [] o.op = "unindex" -> {IF ~Indexed(s, o.n) THEN Out(s, 0) ELSE IF s.n[o.n].p # 0 THEN Out(s, -1) ELSE Out([s EXCEPT !.ix = @ \ {o.n}], 0)}
    [] o.op = "settv" ->
       LET i == Lookup(s, o.n, o.name)
           ty == IF o.ty = "u" THEN s.n[i].ty ELSE o.ty
       IN {IF Cont(o.ty) \/ i = 0 THEN Out(s, -1)
           ELSE IF Cont(s.n[i].ty) THEN Out(s, -1)
           ELSE IF ty \in {"s", "n"} THEN (IF o.v = NIL \/ Len(o.v) >= TokenSz THEN Out(s, -1) ELSE Out([s EXCEPT !.n[i].ty = ty, !.n[i].v = o.v], 0))
           ELSE Out([s EXCEPT !.n[i].ty = ty], 0)}
    [] o.op = "get" ->
       IF "r" \notin DOMAIN o THEN {[s |-> s, r |-> 0]}
       ELSE LET i == Lookup(s, o.n, o.name)
                x == IF i = 0 THEN NewNode(0, <<>>, "u", <<>>) ELSE s.n[i]
                good == o.r.id = i /\ o.r.val = Val(x) /\ IntOk(x, o.r.int) /\ RealOk(x, o.r.real) /\ o.r.bool = BoolOf(x)
            IN {[s |-> s, r |-> IF good THEN o.r ELSE [id |-> i, node |-> x]]}
    [] o.op = "look" -> IF "r" \notin DOMAIN o THEN {[s |-> s, r |-> 0]}
                        ELSE {[s |-> s, r |-> IF Look(s.n[o.n], o.r) THEN o.r ELSE [node |-> s.n[o.n]]]}
    [] o.op = "nth" -> LET x == s.n[o.n] IN {[s |-> s, r |-> [id |-> IF x.ty = "a" /\ o.i < Len(x.ch) THEN x.ch[o.i + 1] ELSE 0]]}
    [] o.op = "walk" -> LET f == Flat(s, o.n, o.l, o.post) IN {[s |-> s, r |-> [ids |-> [j \in 1..Len(f) |-> f[j][1]], ls |-> [j \in 1..Len(f) |-> f[j][2]]]]}
    [] o.op = "print" -> IF "r" \notin DOMAIN o THEN {[s |-> s, r |-> 0]}
                         ELSE LET f == Flat(s, o.n, 0, FALSE) IN {[s |-> s, r |-> IF Printed(s, f, 1, o.r.t, 1) THEN o.r ELSE [tree |-> [j \in 1..Len(f) |-> s.n[f[j][1]]]]]}
    [] o.op = "enc" ->
       IF "r" \notin DOMAIN o THEN {[s |-> s, r |-> 0]}
       ELSE LET n == Pre(s, o.n)
                unk == \E i \in 1..Len(n) : n[i].ty = "u"
                t == o.r.enc
                valid == ValidTree(n)
                written == IF ~valid THEN TRUE ELSE IF Cont(n[1].ty) THEN EncOk(t, n) ELSE LET v == Value(t, 1, 0, NIL) IN v.p = Len(t) + 1 /\ v.n = n
                back == IF Decodes(t) THEN o.r.drc = 0 /\ o.r.vrc = 0 /\ o.r.nav = Nav(Tree(t)) /\ (valid => o.r.same)
                        ELSE o.r.drc = -1 /\ o.r.vrc = (IF Syntax(t) THEN 0 ELSE -1)
            IN {[s |-> s, r |-> IF unk THEN [rc |-> -1] ELSE IF o.r.rc = 0 /\ written /\ back THEN o.r ELSE [rc |-> 0, tree |-> n]]}
    [] o.op = "end" -> {[s |-> Fresh, r |-> [live |-> 0]]}
    [] OTHER -> {}
TInv(s) == /\ \A i \in Ids(s) : \A j \in 1..Len(s.n[i].ch) : s.n[i].ch[j] \in Ids(s) /\ s.n[s.n[i].ch[j]].p = i
           /\ \A i \in Ids(s) : s.n[i].p # 0 => s.n[i].p \in Ids(s) /\ Cardinality({j \in 1..Len(s.n[s.n[i].p].ch) : s.n[s.n[i].p].ch[j] = i}) = 1
           /\ s.ix \subseteq {i \in Ids(s) : s.n[i].p = 0}
====
