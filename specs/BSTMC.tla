---- MODULE BSTMC ----
(* Design level: the tree itself (bottom / top / randomised insertion, deletion by joining the subtrees, selection
   by subtree sizes, balancing by promoting medians) refines the sorted sequence of BST.tla. *)
EXTENDS BST, Json, TLC
CONSTANTS Keys, MaxN, Modes
VARIABLES t, mode, s, op, n
Leaf == <<>>
Node(l, k, v, r) == [l |-> l, k |-> k, v |-> v, r |-> r]
RECURSIVE Size(_)
Size(x) == IF x = Leaf THEN 0 ELSE 1 + Size(x.l) + Size(x.r)
RECURSIVE InOrder(_)
InOrder(x) == IF x = Leaf THEN <<>> ELSE InOrder(x.l) \o <<<<x.k, x.v>>>> \o InOrder(x.r)
RotL(x) == Node(Node(x.l, x.k, x.v, x.r.l), x.r.k, x.r.v, x.r.r)
RotR(x) == Node(x.l.l, x.l.k, x.l.v, Node(x.l.r, x.k, x.v, x.r))
RECURSIVE Bottom(_, _, _)
Bottom(x, k, v) == IF x = Leaf THEN Node(Leaf, k, v, Leaf)
                   ELSE IF k < x.k THEN Node(Bottom(x.l, k, v), x.k, x.v, x.r)
                   ELSE Node(x.l, x.k, x.v, Bottom(x.r, k, v))
RECURSIVE Top(_, _, _)
Top(x, k, v) == IF x = Leaf THEN Node(Leaf, k, v, Leaf)
                ELSE IF k < x.k THEN RotR(Node(Top(x.l, k, v), x.k, x.v, x.r))
                ELSE RotL(Node(x.l, x.k, x.v, Top(x.r, k, v)))
Pushes(x, k, v) ==
  CASE mode = "bottom" -> {Bottom(x, k, v)}
    [] mode = "top"    -> {Top(x, k, v)}
    [] mode = "rand"   -> IF x = Leaf THEN {Bottom(x, k, v)}
                          ELSE {Top(x, k, v), IF k < x.k THEN Node(Bottom(x.l, k, v), x.k, x.v, x.r)
                                                         ELSE Node(x.l, x.k, x.v, Bottom(x.r, k, v))}
RECURSIVE Promote(_, _)
Promote(x, i) ==
  LET c == Size(x.l) IN
  IF c > i THEN RotR(Node(Promote(x.l, i), x.k, x.v, x.r))
  ELSE IF c < i THEN RotL(Node(x.l, x.k, x.v, Promote(x.r, i - (c + 1))))
  ELSE x
Join(l, r) == IF r = Leaf THEN l ELSE LET p == Promote(r, 0) IN Node(l, p.k, p.v, p.r)
RECURSIVE Rem(_, _)
Rem(x, k) == IF x = Leaf THEN Leaf
             ELSE IF k < x.k THEN Node(Rem(x.l, k), x.k, x.v, x.r)
             ELSE IF k > x.k THEN Node(x.l, x.k, x.v, Rem(x.r, k))
             ELSE Join(x.l, x.r)
RECURSIVE Bal(_)
Bal(x) == IF Size(x) < 2 THEN x
          ELSE LET p == Promote(x, Size(x) \div 2) IN Node(Bal(p.l), p.k, p.v, Bal(p.r))
RECURSIVE Nth_(_, _)
Nth_(x, i) == IF x = Leaf THEN <<>> ELSE LET c == Size(x.l) IN
              IF c > i THEN Nth_(x.l, i) ELSE IF c < i THEN Nth_(x.r, i - (c + 1)) ELSE <<x.k, x.v>>
RECURSIVE CountsOf(_)
CountsOf(x) == IF x = Leaf THEN <<>> ELSE CountsOf(x.l) \o <<Size(x)>> \o CountsOf(x.r)

MInit == t = Leaf /\ mode = "none" /\ s = Init0 /\ op = [op |-> "none"] /\ n = 0
Commit(o, t2) == /\ op' = o /\ t' = t2
                 /\ \E d \in Do(s, o) : d.s.q = InOrder(t2) /\ s' = d.s
MNext ==
  \/ mode = "none" /\ \E m \in Modes : /\ mode' = m /\ op' = [op |-> "new", mode |-> m, rev |-> FALSE, kt |-> "string"]
                                       /\ s' = [Init0 EXCEPT !.open = TRUE] /\ UNCHANGED <<t, n>>
  \/ mode # "none" /\ UNCHANGED mode /\
     \/ \E k \in Keys : \E t2 \in Pushes(t, k, n + 1) :
           Size(t) < MaxN /\ n' = n + 1 /\ Commit([op |-> "push", k |-> k, v |-> n + 1], t2)
     \/ UNCHANGED n /\ \/ \E k \in Keys : Commit([op |-> "delete", k |-> k], Rem(t, k))
                       \/ \E k \in Keys : Commit([op |-> "search", k |-> k], t)
                       \/ \E i \in 0..MaxN : Commit([op |-> "nth", n |-> i], t)
                       \/ Commit([op |-> "balance"], Bal(t))
MSpec == MInit /\ [][MNext]_<<t, mode, s, op, n>>
RECURSIVE Shape(_)
Shape(x) == IF x = Leaf THEN "" ELSE "(" \o Shape(x.l) \o ToString(x.k) \o Shape(x.r) \o ")"
MView == <<mode, Shape(t)>>
Edge == PrintT(ToJson([f |-> mode \o Shape(t), o |-> op', t |-> mode' \o Shape(t')]))
(* design properties *)
Refines == InOrder(t) = s.q /\ Inv(s)
Select == \A i \in 0..MaxN : Nth_(t, i) = (IF i < Len(s.q) THEN s.q[i + 1] ELSE <<>>)
CountsOk == Counts(CountsOf(t), FALSE) /\ Counts(CountsOf(Bal(t)), TRUE)
NoStuck == mode # "none" =>
   /\ \A k \in Keys : \E d \in Do(s, [op |-> "delete", k |-> k]) : d.s.q = InOrder(Rem(t, k))
   /\ \A k \in Keys : \A t2 \in Pushes(t, k, n + 1) : \E d \in Do(s, [op |-> "push", k |-> k, v |-> n + 1]) : d.s.q = InOrder(t2)
   /\ InOrder(Bal(t)) = s.q
====
