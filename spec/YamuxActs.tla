------------------------------- MODULE YamuxActs -------------------------------
(* What an endpoint may do next, derived from YamuxCore!Step: the calls an application can make with
   the results the specification allows, and the frames the driver may send. *)
EXTENDS YamuxCore

Legal(c, e) == {o.c : o \in {z \in Step(c, e) : z.v = {}}}
Some(S) == CHOOSE y \in S : TRUE
\* nothing can be done: keep the state (only reachable when a macro step is not defined)
Go(c, e) == IF Legal(c, e) = {} THEN c ELSE Some(Legal(c, e))

RECURSIVE Take(_, _)
Take(buf, k) == IF k = 0 \/ buf = <<>> THEN <<>>
                ELSE LET m == Min(k, Head(buf)[2]) IN
                     <<<<Head(buf)[1], m>>>> \o Take(Tail(buf), k - m)

-----------------------------------------------------------------------------
(* Calls.  Result: [x |-> state after it, done |-> did it return]. *)

WrEv(s, k, r, n) == [e |-> "wr", s |-> s, k |-> k, r |-> r, n |-> n, p |-> 0]
DoWr(y, s, k) ==
  LET ns == {n \in 1..k : Legal(y.c, WrEv(s, k, "ok", n)) # {}}
      mx == CHOOSE n \in ns : \A m \in ns : m <= n
  IN IF ns # {} THEN [x |-> [y EXCEPT !.c = Go(y.c, WrEv(s, k, "ok", mx))], done |-> TRUE]
     ELSE IF Legal(y.c, WrEv(s, k, "err", 0)) # {} THEN [x |-> y, done |-> TRUE]
     ELSE [x |-> y, done |-> FALSE]

RdEv(s, k, r, g) == [e |-> "rd", m |-> "b", s |-> s, k |-> k, r |-> r, n |-> SumL(g), g |-> g, ga |-> <<>>]
DoRd(y, s, k, pkt) ==
  LET buf == y.c.s[s].buf
      g == IF pkt THEN (IF buf = <<>> THEN buf ELSE <<Head(buf)>>) ELSE Take(buf, k)
      d == RdEv(s, 99, "data", g)
  IN IF g # <<>> /\ Legal(y.c, d) # {} THEN [x |-> [y EXCEPT !.c = Go(y.c, d)], done |-> TRUE]
     ELSE IF Legal(y.c, RdEv(s, k, "eof", <<>>)) # {}
          THEN [x |-> [y EXCEPT !.c = Go(y.c, RdEv(s, k, "eof", <<>>))], done |-> TRUE]
     ELSE [x |-> [y EXCEPT !.c = Go(y.c, RdEv(s, k, "pend", <<>>))], done |-> FALSE]

DoCl(y, s) ==
  LET e(r) == [e |-> "cl", s |-> s, r |-> r] IN
  IF Legal(y.c, e("ok")) # {} THEN [x |-> [y EXCEPT !.c = Go(y.c, e("ok"))], done |-> TRUE]
  ELSE IF Legal(y.c, e("err")) # {} THEN [x |-> y, done |-> TRUE]
  ELSE [x |-> y, done |-> FALSE]

DoOpen(y) ==
  LET id == y.c.next
      e(r, k) == [e |-> "o1", s |-> id, r |-> r, k |-> k]
  IN IF Legal(y.c, e("ok", "")) # {} THEN [x |-> [y EXCEPT !.c = Go(y.c, e("ok", "")), !.ids = @ \cup {id}], done |-> TRUE]
     ELSE IF Legal(y.c, e("pend", "")) # {} THEN [x |-> y, done |-> FALSE]
     ELSE [x |-> [y EXCEPT !.c = Go(y.c, e("err", "toomany"))], done |-> TRUE]

Retry(y, k) ==
  LET op == y.pk[k]
      r == CASE op.o = "wr" -> DoWr(y, k[2], op.k)
             [] op.o = "rd" -> DoRd(y, k[2], op.k, FALSE)
             [] op.o = "rp" -> DoRd(y, k[2], 0, TRUE)
             [] op.o = "cl" -> DoCl(y, k[2])
             [] op.o = "open" -> DoOpen(y)
  IN IF r.done THEN [r.x EXCEPT !.pk = Without(@, k)] ELSE r.x

Call(y, k, op) ==
  LET z == [y EXCEPT !.pk = (k :> op) @@ @] IN Retry(z, k)

-----------------------------------------------------------------------------
(* The driver *)

Fl1(r, fin) == (IF r.wf = "syn" THEN 1 ELSE 0) + (IF r.wf = "ack" THEN 2 ELSE 0) + (IF fin THEN 4 ELSE 0)
TxEv(yy, f, s, n, p) == [e |-> "tx", y |-> yy, f |-> f, s |-> s, h |-> n[1], l |-> n[2], p |-> p, t |-> 0]
StreamTx(r, s) ==
  IF r.wq # <<>> THEN {TxEv(1, Fl1(r, FALSE), s, Head(r.wq).n, 0)}
  ELSE IF r.dq # <<>> THEN {TxEv(0, Fl1(r, Head(r.dq).k = "f"), s, Head(r.dq).n, Head(r.dq).p)}
  ELSE IF r.m \in {"drop", "gone"} /\ DropFrame(r) = "rst" THEN {TxEv(0, 8, s, Zero, 0)}
  ELSE IF r.m \in {"drop", "gone"} /\ DropFrame(r) = "fin" THEN {TxEv(0, 4, s, Zero, 0)}
  ELSE {}
Sendable(c) ==
  IF c.st = "ended" THEN {}
  ELSE IF c.due THEN {[TxEv(2, 1, 0, U(Cardinality(c.pused)), 0) EXCEPT !.t = c.now]}
  ELSE IF c.pend # <<>> THEN
    {IF Head(c.pend).y = 2 THEN TxEv(2, 2, 0, Head(c.pend).id, 0)
     ELSE TxEv(3, 0, 0, U(CHOOSE k \in Head(c.pend).codes : TRUE), 0)}
  ELSE LET S == UNION {StreamTx(c.s[s], s) : s \in DOMAIN c.s} \cup UNION {StreamTx(c.left[s], s) : s \in DOMAIN c.left}
       IN IF S # {} THEN S
          ELSE IF c.st = "closing" /\ ~c.term THEN {TxEv(3, 0, 0, Zero, 0)}
          ELSE IF c.st = "closing" /\ ~c.tc THEN {[e |-> "tclose", m |-> FALSE]}
          ELSE {}
=============================================================================
