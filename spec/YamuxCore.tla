------------------------------ MODULE YamuxCore ------------------------------
(***************************************************************************)
(* One yamux endpoint (connection plus all its streams) as a state machine *)
(* whose events are what crosses its two boundaries: the public API (calls *)
(* with their results) and the transport (frames completely sent or        *)
(* received, faults).                                                      *)
(*                                                                         *)
(* Step(c, e) is the whole specification: the set of outcomes              *)
(* [c |-> next state, v |-> violated properties] of event e in state c.    *)
(* An outcome with v = {} is a legal step.  v names the properties         *)
(* (C01..C20, see properties.jsonl) an illegal step breaks; its c is then  *)
(* a best-effort resynchronisation.  More than one outcome means that the  *)
(* moment at which the driver looked at its queues is not observable.      *)
(*                                                                         *)
(* The same Step is used by the design models (YamuxPair, YamuxEnv), which *)
(* choose the events, and by the conformance check (YamuxTrace), which     *)
(* takes them from recordings of the real code.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  D,        \* default credit (256 KiB)
  BACKLOG,  \* how many unacknowledged outbound streams may be open (256)
  QFULL,    \* a stream operation may wait only with at least this many frames of the stream unsent
  QMAX,     \* ... and the endpoint never accepts more than this many
  PENDMAX,  \* bound on the replies owed to the peer
  PINGIV    \* time between a pong and the next ping (10 s)

ALL == {"C01","C02","C03","C04","C05","C06","C07","C08","C09","C10",
        "C11","C12","C13","C14","C15","C16","C17","C18","C19","C20"}

-----------------------------------------------------------------------------
(* unsigned 32-bit quantities as <<high, low>> halves (TLC has 32-bit ints) *)
B16 == 65536
U(n) == <<n \div B16, n % B16>>
UAdd(a, b) == LET l == a[2] + b[2] IN <<a[1] + b[1] + (l \div B16), l % B16>>
UOver(a) == a[1] >= B16
USub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>>
              ELSE <<a[1] - b[1] - 1, a[2] + B16 - b[2]>>
ULe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Zero == <<0, 0>>

Has(f, bit) == (f \div bit) % 2 = 1
SYN(f) == Has(f, 1)
ACK(f) == Has(f, 2)
FIN(f) == Has(f, 4)
RST(f) == Has(f, 8)

Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumL(_)
SumL(q) == IF q = <<>> THEN 0 ELSE Head(q)[2] + SumL(Tail(q))
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
When(b, S) == IF b THEN S ELSE {}

-----------------------------------------------------------------------------
(* State *)

(* A stream.
   dir  "o" opened here, "i" opened by the peer
   st   "open", "sc" (write side closed), "rc" (peer's FIN received), "cl"
   ackd acknowledged (by the peer, or by us as soon as such a frame is queued)
   h    the application holds the handle
   m    "yes" known to the connection; "drop" handle dropped, connection not yet told;
        "gone" drop processed but its last frames unsent (only in c.left); "no" connection over
   fl   flag the next queued frame gets; wf: flag the next frame on the wire must have
   dq, wq  accepted but unsent data/FIN frames, and window updates
   sw   credit left for writing; ws: the same counted at the wire
   rw   credit the peer has left (as granted by queued updates); mw receive window; lw last update
   buf  received and unread bytes as runs <<position, length>>
   rf   properties under which frames of this stream were refused (for blame only) *)
NewS(dir, sw, now) ==
  [dir |-> dir, st |-> "open", ackd |-> FALSE, h |-> TRUE, m |-> "yes",
   fl |-> IF dir = "o" THEN "syn" ELSE "ack", wf |-> IF dir = "o" THEN "syn" ELSE "ack",
   dq |-> <<>>, wq |-> <<>>, sw |-> sw, ws |-> sw, rw |-> D, mw |-> D, lw |-> now,
   buf |-> <<>>, rf |-> {}]

(* A connection. *)
NewC(cfg) ==
  [cfg |-> cfg, st |-> "active", why |-> "", told |-> FALSE, s |-> <<>>, left |-> <<>>,
   next |-> IF cfg.srv THEN 2 ELSE 1, pend |-> <<>>, ov |-> 0,
   pg |-> "wait", pat |-> 0, pid |-> Zero, psent |-> 0, pused |-> {}, rtt |-> -1,
   now |-> 0, aq |-> <<>>, lrx |-> {}, due |-> FALSE, term |-> FALSE, tc |-> FALSE, werr |-> FALSE,
   cov |-> {}]

CanRead(r) == r.st \in {"open", "sc"}
CanWrite(r) == r.st \in {"open", "rc"}
Untx(r) == Len(r.dq) + Len(r.wq)
Present(c, s) == s \in DOMAIN c.s /\ c.s[s].m \in {"yes", "drop"}
PresentSet(c) == {s \in DOMAIN c.s : c.s[s].m \in {"yes", "drop"}}
\* dropped streams whose removal the driver may or may not have processed already
MaybeGone(c) == {s \in DOMAIN c.s : c.s[s].m = "drop" /\ Untx(c.s[s]) <= 1}
CountMax(c) == Cardinality(PresentSet(c))
CountMin(c) == Cardinality(PresentSet(c) \ MaybeGone(c))
Unacked(c) == {s \in PresentSet(c) : c.s[s].dir = "o" /\ c.s[s].st = "open" /\ ~c.s[s].ackd}
BackMax(c) == Cardinality(Unacked(c))
BackMin(c) == Cardinality(Unacked(c) \ MaybeGone(c))

Upd(c, s, r) == [c EXCEPT !.s[s] = r]
Cov(c, l) == [c EXCEPT !.cov = @ \cup {l}]
Out(c, v) == {[c |-> c, v |-> v]}
Ok(c, l) == Out(Cov(c, l), {})

(* What the driver owes the peer for a dropped stream. *)
DropFrame(r) == IF r.st = "open" THEN "rst" ELSE IF r.st = "rc" THEN "fin" ELSE "none"
(* The driver processes the drop of s. *)
Process(c, s) ==
  LET r == c.s[s] IN
  IF DropFrame(r) = "none" /\ Untx(r) = 0 THEN [c EXCEPT !.s = Without(@, s)]
  ELSE [c EXCEPT !.s = Without(@, s), !.left = (s :> [r EXCEPT !.m = "gone"]) @@ @]
(* For events whose effect depends on whether that has happened already. *)
Variants(c, s) == {c} \cup When(s \in MaybeGone(c) /\ s \notin DOMAIN c.left, {Process(c, s)})

(* The connection is over: every stream ends, nothing more is sent. *)
EndConn(c, why) ==
  [c EXCEPT !.st = "ended", !.why = why, !.pend = <<>>, !.left = <<>>,
     !.s = [s \in {x \in DOMAIN c.s : c.s[x].h} |->
              [c.s[s] EXCEPT !.st = "cl", !.m = "no", !.dq = <<>>, !.wq = <<>>]]]
(* The application closed the connection: streams end, what was accepted is still sent. *)
StartClosing(c) ==
  [c EXCEPT !.st = "closing", !.why = "local",
     !.left = [s \in DOMAIN c.left \cup {x \in DOMAIN c.s : c.s[x].m = "drop"} |->
                 IF s \in DOMAIN c.left THEN c.left[s] ELSE [c.s[s] EXCEPT !.m = "gone"]],
     !.s = [s \in {x \in DOMAIN c.s : c.s[x].m # "drop"} |-> [c.s[s] EXCEPT !.st = "cl"]]]
Drained(c) == /\ c.pend = <<>>
              /\ \A s \in DOMAIN c.s : Untx(c.s[s]) = 0
              /\ \A s \in DOMAIN c.left : Untx(c.left[s]) = 0

-----------------------------------------------------------------------------
(* Receiving *)

Reply(c, p) ==
  LET c1 == [c EXCEPT !.pend = Append(@, p), !.ov = IF c.pend = <<>> THEN 0 ELSE @] IN
  [c |-> c1, v |-> When(Len(c1.pend) > PENDMAX, {"C19"})]
GoAway(c, codes, tags, l) == {Reply(Cov(c, l), [y |-> 3, codes |-> codes, tags |-> tags, id |-> Zero])}
Refuse(c, s, tags, l) ==
  GoAway(IF s \in DOMAIN c.s THEN [c EXCEPT !.s[s].rf = @ \cup tags] ELSE c, {1}, tags, l)

StAfterFin(st) == CASE st = "open" -> "rc" [] st = "sc" -> "cl" [] OTHER -> st

ValidRemote(c, s) == s # 0 /\ (IF c.cfg.srv THEN s % 2 = 1 ELSE s % 2 = 0)

(* An inbound SYN frame. *)
RxSyn(c, e, n) ==
  LET s == e.s
      bad == ~ValidRemote(c, s)
      big == e.y = 0 /\ ~ULe(n, U(D))
      over == e.y = 1 /\ UOver(UAdd(n, U(D)))
      refuseFull == GoAway(c, {1, 2}, {"C12"}, "syn-full")
      len == IF e.y = 0 /\ ~big THEN e.h * B16 + e.l ELSE 0
      r0 == NewS("i", IF e.y = 1 THEN UAdd(n, U(D)) ELSE U(D), c.now)
      r == [r0 EXCEPT !.st = IF FIN(e.f) THEN "rc" ELSE "open", !.rw = D - len,
                      !.buf = IF len > 0 THEN <<<<e.p, len>>>> ELSE <<>>]
      create == Ok([c EXCEPT !.s = (s :> r) @@ @, !.aq = Append(@, s)],
                   IF e.y = 0 THEN "syn-data" ELSE "syn-window")
  IN IF bad THEN GoAway(c, {1}, {"C09"}, "syn-badid")
     ELSE IF Present(c, s) THEN GoAway(c, {1}, {"C09"}, "syn-inuse")
     ELSE IF big THEN GoAway(c, {1, 2}, {"C03"}, "syn-big")
     ELSE IF over THEN GoAway(c, {1, 2}, {"C02"}, "syn-overflow")
     ELSE IF CountMin(c) >= c.cfg.maxs THEN refuseFull
     ELSE IF CountMax(c) < c.cfg.maxs THEN create
     ELSE refuseFull \cup create

RxData(c, e, n) ==
  LET s == e.s
      r == c.s[s]
      small == ULe(n, <<16, 0>>)
      len == e.h * B16 + e.l
      fits == small /\ len <= r.rw
      r1 == [r EXCEPT !.rw = @ - len,
                      !.st = IF FIN(e.f) THEN StAfterFin(@) ELSE @,
                      !.buf = IF len > 0 /\ r.h THEN Append(@, <<e.p, len>>) ELSE @]
      deliver == Ok(Upd(c, s, r1), IF FIN(e.f) THEN "data-fin" ELSE "data")
      refuse == Refuse(c, s, {"C03"}, "data-excess")
  IN IF ~Present(c, s) THEN Ok(c, "data-unknown")
     ELSE IF CanRead(r) THEN (IF fits THEN deliver ELSE refuse)
     ELSE \* the peer sends after its own FIN or reset: not constrained
          (IF fits THEN deliver ELSE refuse) \cup Ok(c, "data-after-fin")

RxWin(c, e, n) ==
  LET s == e.s
      r == c.s[s]
      w == UAdd(r.sw, n)
      r1 == [r EXCEPT !.sw = w, !.ws = UAdd(@, n), !.st = IF FIN(e.f) THEN StAfterFin(@) ELSE @]
  IN IF ~Present(c, s) THEN Ok(c, "win-unknown")
     ELSE IF UOver(w) THEN Refuse(c, s, {"C02"}, "win-overflow")
     ELSE Ok(Upd(c, s, r1), IF FIN(e.f) THEN "win-fin" ELSE "win")

RxPing(c, e, n) ==
  IF ACK(e.f)
  THEN IF c.pg = "await" /\ n = c.pid
       THEN Ok([c EXCEPT !.pg = "wait", !.pat = c.now + PINGIV, !.rtt = c.now - c.psent], "pong")
       ELSE GoAway(c, {1}, {"C13"}, "pong-bad")
            \cup \* the ping may be partly sent: the peer guessed its value
            When(c.pg = "wait" /\ c.now >= c.pat,
                 Ok([c EXCEPT !.pg = "early", !.pid = n, !.pat = c.now + PINGIV, !.rtt = -2], "pong-early"))
  ELSE IF e.s = 0 \/ Present(c, e.s)
       THEN {Reply(Cov(c, IF e.s = 0 THEN "ping" ELSE "ping-stream"),
                   [y |-> 2, codes |-> {}, tags |-> {"C13"}, id |-> n])}
       ELSE Ok(c, "ping-unknown")

RxBlame(c, e) ==
  CASE e.y = 2 -> {"C13"} \cup When(e.s # 0 /\ ~Present(c, e.s), {"C18"})
    [] e.y = 3 -> {"C15"}
    [] RST(e.f) -> {"C08"} \cup When(~Present(c, e.s), {"C18"})
    [] SYN(e.f) -> {"C09", "C12"} \cup (IF e.y = 0 THEN {"C03"} ELSE {"C02"})
    [] ~Present(c, e.s) -> {"C18"}
    [] OTHER -> (IF e.y = 0 THEN {"C03", "C01"} ELSE {"C02"}) \cup When(FIN(e.f), {"C07"})
                  \cup When(ACK(e.f), {"C10", "C11"})

RxOne(c0, e) ==
  LET n == <<e.h, e.l>>
      c1 == [c0 EXCEPT !.lrx = RxBlame(c0, e)]
      c == IF e.y \in {0, 1} /\ ACK(e.f) /\ Present(c1, e.s) /\ c1.s[e.s].st = "open"
           THEN Cov([c1 EXCEPT !.s[e.s].ackd = TRUE], "ack") ELSE c1
  IN CASE e.y = 3 -> {[c |-> Cov(EndConn(c, "clean"), "goaway"), v |-> {}]}
       [] e.y = 2 -> RxPing(c, e, n)
       [] RST(e.f) -> IF Present(c, e.s)
                      THEN Ok(Upd(c, e.s, [c.s[e.s] EXCEPT !.st = "cl"]), "rst-" \o c.s[e.s].st)
                      ELSE Ok(c, "rst-unknown")
       [] SYN(e.f) -> RxSyn(c, e, n)
       [] e.y = 0 -> RxData(c, e, n)
       [] e.y = 1 -> RxWin(c, e, n)

Rx(c, e) ==
  IF c.st # "active" THEN Ok(c, "rx-ignored")
  ELSE UNION {RxOne(x, e) : x \in Variants(c, e.s)}

RxEnd(c, why, l) == IF c.st = "active" THEN {[c |-> Cov(EndConn(c, why), l), v |-> {}]} ELSE Ok(c, l)

-----------------------------------------------------------------------------
(* Sending *)

(* flags of a stream frame against what the wire expects: SYN and ACK *)
FlagV(r, f, must) ==
  When((SYN(f) /\ r.wf # "syn") \/ (must /\ ~SYN(f) /\ r.wf = "syn"), {"C09"})
  \cup When((ACK(f) /\ r.wf # "ack") \/ (must /\ ~ACK(f) /\ r.wf = "ack"), {"C10"})

(* A data or window-update frame of stream record r (in c.left or c.s). *)
TxOn(c, r, e) ==
  LET n == <<e.h, e.l>>
      r1 == [r EXCEPT !.wf = "none"]
      hd == IF r.dq = <<>> THEN [k |-> "none", n |-> Zero, p |-> 0] ELSE Head(r.dq)
      dropk == IF r.m \in {"drop", "gone"} THEN DropFrame(r) ELSE "none"
      idle == Untx(r) = 0
  IN CASE RST(e.f) ->
            [r |-> r1, fin |-> TRUE, l |-> "tx-rst",
             v |-> When(dropk # "rst", {"C08"}) \cup When(~idle, {"C08", "C01"})
                   \cup When(FIN(e.f), {"C08"}) \cup FlagV(r, e.f, FALSE)]
       [] e.y = 1 ->
            LET q == r.wq IN
            [r |-> [r1 EXCEPT !.wq = IF q = <<>> THEN q ELSE Tail(q)], fin |-> FALSE, l |-> "tx-win",
             v |-> (IF q = <<>> THEN {"C03"} ELSE When(Head(q).n # n, {"C03"} \cup Head(q).t))
                   \cup When(FIN(e.f), {"C07"}) \cup FlagV(r, e.f, TRUE)]
       [] FIN(e.f) /\ hd.k # "f" ->
            \* a FIN nobody asked for, except for a dropped stream whose peer has finished
            [r |-> r1, fin |-> dropk = "fin", l |-> "tx-dropfin",
             v |-> When(dropk # "fin", {"C07", "C08"}) \cup When(~idle, {"C07", "C08", "C01"})
                   \cup When(n # Zero, {"C01"}) \cup FlagV(r, e.f, FALSE)]
       [] FIN(e.f) ->
            [r |-> [r1 EXCEPT !.dq = Tail(r.dq)], fin |-> FALSE, l |-> "tx-fin",
             v |-> When(n # Zero, {"C01", "C07"}) \cup FlagV(r, e.f, TRUE)]
       [] OTHER ->
            [r |-> [r1 EXCEPT !.dq = IF hd.k = "d" THEN Tail(r.dq) ELSE r.dq,
                              !.ws = IF ULe(n, r.ws) THEN USub(r.ws, n) ELSE @],
             fin |-> FALSE, l |-> "tx-data",
             v |-> When(hd.k = "none", {"C01"}) \cup When(hd.k = "f", {"C01", "C07"})
                   \cup When(hd.k = "d" /\ (hd.n # n \/ hd.p # e.p), {"C01"})
                   \cup When(~ULe(n, r.ws), {"C02"})
                   \cup When(~ULe(n, U(c.cfg.split)), {"C16"})
                   \cup FlagV(r, e.f, TRUE)]

TxStream(c0, e) ==
  LET over == c0.pend # <<>> /\ c0.ov >= 1
      c == IF c0.pend # <<>> THEN [c0 EXCEPT !.ov = @ + 1] ELSE c0
      vo == When(over, {"C13"}) \cup When(c0.term, {"C14"}) \cup When(c0.st = "ended", {"C15"})
  IN IF e.s \in DOMAIN c.left
     THEN LET t == TxOn(c, c.left[e.s], e)
              done == t.fin \/ (Untx(t.r) = 0 /\ DropFrame(t.r) = "none")
          IN Out(Cov(IF done THEN [c EXCEPT !.left = Without(@, e.s)] ELSE [c EXCEPT !.left[e.s] = t.r], t.l),
                 t.v \cup vo)
     ELSE IF e.s \in DOMAIN c.s
     THEN LET t == TxOn(c, c.s[e.s], e) IN
          Out(Cov(IF t.fin /\ c.s[e.s].m = "drop" THEN [c EXCEPT !.s = Without(@, e.s)]
                  ELSE [c EXCEPT !.s[e.s] = t.r], t.l),
              t.v \cup vo)
     ELSE Out(c, vo \cup {"C18"} \cup (IF RST(e.f) \/ FIN(e.f) THEN {"C07", "C08"} ELSE {"C01", "C03"}))

Tx(c, e) ==
  LET n == <<e.h, e.l>> IN
  CASE e.y \in {0, 1} -> TxStream(c, e)
    [] e.y = 2 /\ SYN(e.f) ->
         Out(Cov([c EXCEPT !.pused = @ \cup {n}, !.due = FALSE,
                           !.pg = IF @ = "early" THEN "wait" ELSE "await",
                           !.pid = n, !.psent = e.t,
                           !.rtt = IF c.pg = "early" THEN c.pat - PINGIV - e.t ELSE @], "tx-ping"),
             When(~(c.pg = "wait" /\ e.t >= c.pat) /\ ~(c.pg = "early" /\ n = c.pid), {"C13"})
             \cup When(n \in c.pused, {"C13"}) \cup When(c.term, {"C14"}) \cup When(c.st = "ended", {"C15"}))
    [] e.y = 2 ->
         LET good == c.pend # <<>> /\ Head(c.pend).y = 2 /\ Head(c.pend).id = n IN
         Out(Cov([c EXCEPT !.pend = IF @ # <<>> /\ Head(@).y = 2 THEN Tail(@) ELSE @, !.ov = 0], "tx-pong"),
             When(~good, {"C13"} \cup c.lrx) \cup When(c.term, {"C14"}) \cup When(c.st = "ended", {"C15"}))
    [] e.y = 3 /\ n = Zero ->
         Out(Cov([c EXCEPT !.term = TRUE], "tx-term"),
             When(c.st # "closing" \/ c.term \/ ~Drained(c), {"C14"}))
    [] OTHER ->
         LET good == c.pend # <<>> /\ Head(c.pend).y = 3 /\ e.l \in Head(c.pend).codes IN
         Out(Cov([c EXCEPT !.pend = IF @ # <<>> /\ Head(@).y = 3 THEN Tail(@) ELSE @, !.ov = 0], "tx-goaway"),
             When(~good, c.lrx \cup When(c.pend # <<>>, Head(c.pend).tags)) \cup When(c.term, {"C14"})
             \cup When(c.st = "ended", {"C15"}))

-----------------------------------------------------------------------------
(* Application calls on streams *)

(* the flag a newly queued frame carries *)
Flagged(r) == [r EXCEPT !.fl = "none", !.ackd = IF r.fl = "ack" THEN TRUE ELSE @]

EndBlame(c, r) == IF c.st # "active" THEN {"C15"} ELSE IF r.st = "cl" THEN {"C08", "C07"} ELSE {"C07"}

(* Credit returned by a read, before it takes bytes. T: dropped streams whose share is free again *)
(* whether the window may grow; a set because the round-trip time may not be known yet *)
Grows(c, r) == IF c.rtt = -2 THEN BOOLEAN ELSE {c.rtt >= 0 /\ c.now - r.lw < 2 * c.rtt}
Shares(c) == [s \in DOMAIN c.s |-> c.s[s].mw - D]
NewMax(c, r, g, T) ==
  IF ~g THEN r.mw
  ELSE IF c.cfg.maxc < 0 THEN 2 * r.mw
  ELSE LET acc == SumF(Shares(c), {s \in DOMAIN c.s \ T : c.s[s].mw # D})
       IN Min(2 * r.mw, r.mw + (c.cfg.maxc - c.cfg.maxs * D - acc))
WuDue(r) == r.mw - r.rw - SumL(r.buf) >= r.mw \div 2
WuOutcomes(c, s) ==
  LET r == c.s[s] IN
  IF c.st # "active" \/ ~CanRead(r) \/ ~WuDue(r) THEN {c}
  ELSE LET amb == {x \in MaybeGone(c) : c.s[x].mw > D}
           grown(G, T) == LET m2 == NewMax(c, r, G, T)
                           g == m2 - r.rw - SumL(r.buf)
                           lab == IF m2 = r.mw THEN (IF G THEN "wu-limited" ELSE "wu")
                                  ELSE IF m2 = 2 * r.mw THEN "wu-double" ELSE "wu-partial"
                           r1 == [Flagged(r) EXCEPT !.mw = m2, !.rw = @ + g, !.lw = c.now,
                                    !.wq = Append(@, [n |-> U(g), t |-> {"C04"}])]
                       IN Cov(Upd(c, s, r1), lab)
       IN (IF Untx(r) >= QMAX THEN {} ELSE UNION {{grown(G, T) : T \in SUBSET (IF G THEN amb ELSE {})} : G \in Grows(c, r)})
          \cup When(Untx(r) >= QFULL, {Cov(c, "wu-blocked")})

(* bytes read (runs g) against the buffered ones *)
RECURSIVE Eat(_, _)
Eat(buf, g) ==
  IF g = <<>> THEN [ok |-> TRUE, rest |-> buf]
  ELSE IF buf = <<>> THEN [ok |-> FALSE, rest |-> buf]
  ELSE LET b == Head(buf)
           x == Head(g)
           k == Min(b[2], x[2])
       IN IF b[1] # x[1] THEN [ok |-> FALSE, rest |-> buf]
          ELSE Eat((IF b[2] = k THEN <<>> ELSE <<<<b[1] + k, b[2] - k>>>>) \o Tail(buf),
                   (IF x[2] = k THEN <<>> ELSE <<<<x[1] + k, x[2] - k>>>>) \o Tail(g))

RdIn(c, e) ==
  LET r == c.s[e.s]
      t == Eat(r.buf, e.g)
      cut == c.st # "active" /\ ~c.cfg.rac
  IN CASE e.r = "data" ->
            Out(Cov(Upd(c, e.s, [r EXCEPT !.buf = t.rest]),
                    IF ~CanRead(r) THEN (IF c.st = "active" THEN "rd-after-" \o r.st ELSE "rd-after-end")
                    ELSE IF e.m = "p" THEN "rd-packet" ELSE "rd"),
                When(~t.ok \/ (e.m = "b" /\ e.n > e.k), {"C01"} \cup r.rf) \cup When(cut, {"C15"}))
       [] e.r = "eof" ->
            Out(Cov(c, IF c.st # "active" THEN (IF cut THEN "eof-cut" ELSE "eof-end") ELSE "eof-" \o r.st),
                When(~cut /\ r.buf # <<>>, {"C01", "C07"} \cup EndBlame(c, r))
                \cup When(~cut /\ r.buf = <<>> /\ CanRead(r), {"C07", "C01"}))
       [] e.r = "pend" ->
            Out(Cov(c, "rd-pend"),
                When(r.buf # <<>>, {"C05", "C01"}) \cup When(~CanRead(r), {"C05"} \cup EndBlame(c, r))
                \cup When(cut, {"C15"}))
       [] OTHER -> Out(c, {"C01"} \cup EndBlame(c, r))
\* a few bytes may be found in more than one place of what was received: e.ga are the alternatives
Readings(e) == {e} \cup (IF e.r # "data" THEN {} ELSE {[e EXCEPT !.g = e.ga[i]] : i \in DOMAIN e.ga})
RdBuf(c, e) == UNION {RdIn(c, y) : y \in Readings(e)}
Rd(c, e) == UNION {RdBuf(x, e) : x \in WuOutcomes(c, e.s)}

Wr(c, e) ==
  LET r == c.s[e.s]
      n == U(e.n)
      live == c.st = "active" /\ CanWrite(r)
      full == c.st = "active" /\ Untx(r) >= QFULL
      r1 == [Flagged(r) EXCEPT !.dq = Append(@, [k |-> "d", n |-> n, p |-> e.p]),
                               !.sw = IF ULe(n, @) THEN USub(@, n) ELSE Zero]
  IN CASE e.r = "ok" ->
            Out(Cov(IF live THEN Upd(c, e.s, r1) ELSE c, IF n = r.sw THEN "wr-exhaust" ELSE "wr"),
                When(~live, EndBlame(c, r)) \cup When(e.n < 1, {"C02"}) \cup When(~ULe(n, r.sw), {"C02"})
                \cup When(e.n > e.k, {"C01"}) \cup When(e.n > c.cfg.split, {"C16"})
                \cup When(Untx(r) >= QMAX, {"C19"}))
       [] e.r = "pend" ->
            Out(Cov(c, IF r.sw = Zero THEN "wr-nocredit" ELSE "wr-full"),
                When(~full /\ ~live, {"C05"} \cup EndBlame(c, r))
                \cup When(~full /\ live /\ r.sw # Zero, {"C02", "C05"}))
       [] OTHER -> Out(Cov(c, "wr-err"), When(live, {"C02", "C07"}))

Fl(c, e) ==
  LET r == c.s[e.s] IN
  CASE e.r = "ok" -> Ok(c, "fl")
    [] e.r = "pend" -> Out(Cov(c, "fl-full"), When(c.st # "active", {"C05", "C15"})
                                              \cup When(c.st = "active" /\ Untx(r) < QFULL, {"C05"}))
    [] OTHER -> Out(c, When(c.st = "active", {"C07"}))

Cl(c, e) ==
  LET r == c.s[e.s]
      live == c.st = "active" /\ CanWrite(r)
      full == c.st = "active" /\ Untx(r) >= QFULL
      r1 == [Flagged(r) EXCEPT !.dq = Append(@, [k |-> "f", n |-> Zero, p |-> 0]),
                               !.ackd = IF r.fl = "ack" THEN TRUE ELSE r.ackd,
                               !.st = IF r.st = "open" THEN "sc" ELSE "cl"]
  IN CASE e.r = "ok" ->
            IF live THEN Out(Cov(Upd(c, e.s, r1), "cl-" \o r.st \o "-" \o r.fl), When(Untx(r) >= QMAX, {"C19"}))
            ELSE Ok(c, "cl-again")
       [] e.r = "pend" -> Out(Cov(c, "cl-full"), When(~full, {"C05"} \cup (IF live THEN {"C07"} ELSE EndBlame(c, r))))
       [] OTHER -> Out(c, When(c.st = "active", {"C07"}))

Dr(c, e) ==
  LET r == c.s[e.s] IN
  IF r.m = "no" THEN Ok([c EXCEPT !.s = Without(@, e.s)], "dr-ended")
  ELSE Ok(Upd(c, e.s, [r EXCEPT !.h = FALSE, !.buf = <<>>, !.m = "drop"]),
          "dr-" \o r.st \o (IF Untx(r) > 0 THEN "-queued" ELSE "") \o (IF c.st = "active" THEN "" ELSE "-closing"))

Qs(c, e) ==
  LET r == c.s[e.s] IN
  Out(Cov(c, "q-" \o r.st),
      When(e.c # (r.st = "cl"), IF c.st # "active" THEN {"C15"} ELSE {"C07", "C08"})
      \cup When(r.st # "cl" /\ e.w # (r.st = "sc"), {"C07"})
      \cup When(e.a # (r.st = "open" /\ ~r.ackd), {"C10"}))

-----------------------------------------------------------------------------
(* Application calls on the connection *)

P0(c, e) == Out([c EXCEPT !.due = c.st = "active" /\ c.pg = "wait" /\ c.now >= c.pat], {})

Finish(c) == [EndConn(c, c.why) EXCEPT !.told = TRUE]

P1(c, e) ==
  CASE e.r = "pend" ->
         Out(c, When(c.st = "ended", {"C15"} \cup When(c.werr, {"C16"}))
                \cup When(c.aq # <<>>, {"C09", "C05"}))
    [] e.r = "stream" ->
         LET good == c.aq # <<>> /\ Head(c.aq) = e.s /\ c.st = "active" IN
         Out(Cov([c EXCEPT !.aq = IF @ # <<>> THEN Tail(@) ELSE @,
                           !.s = IF e.s \in DOMAIN @ THEN @ ELSE (e.s :> NewS("i", U(D), c.now)) @@ @], "accept"),
             When(~good, {"C09"} \cup c.lrx))
    [] e.r = "none" ->
         IF c.st = "active" THEN Out(EndConn(c, "clean"), {"C15"} \cup c.lrx)
         ELSE IF c.st = "closing" THEN Out(Cov(Finish(c), "closed-by-driver"), When(~c.tc, {"C14", "C15"}))
         ELSE Out(Cov([c EXCEPT !.told = TRUE], "none-" \o c.why), When(c.why = "err" /\ ~c.told, {"C15", "C17"}))
    [] OTHER ->
         IF c.st = "ended" /\ c.why = "err" /\ ~c.told
         THEN Out(Cov([c EXCEPT !.told = TRUE], "err-" \o e.k),
                  When(e.k # (IF c.werr THEN "io" ELSE "decode"), {"C15", "C17"}))
         ELSE Out([EndConn(c, "err") EXCEPT !.told = TRUE], {"C15"} \cup When(c.st = "active", c.lrx))

O0(c, e) == Out(c, {})
NewId(c, s) == s # 0 /\ (s % 2 = 0) = c.cfg.srv /\ (s < 0 \/ s >= c.next)
O1(c, e) ==
  IF c.st = "active" THEN
    CASE e.r = "ok" ->
           Out(Cov([c EXCEPT !.s = (e.s :> NewS("o", U(D), c.now)) @@ @, !.next = IF e.s >= 0 THEN e.s + 2 ELSE @],
                   IF BackMax(c) = BACKLOG - 1 THEN "open-last" ELSE "open"),
               When(~NewId(c, e.s) \/ e.s \in DOMAIN c.s, {"C09"})
               \cup When(CountMin(c) >= c.cfg.maxs, {"C12"})
               \cup When(BackMin(c) >= BACKLOG, {"C11"}))
      [] e.r = "pend" -> Out(Cov(c, "open-wait"),
                             When(CountMin(c) >= c.cfg.maxs, {"C12"}) \cup When(BackMax(c) < BACKLOG, {"C11", "C05", "C20"}))
      [] e.k = "toomany" -> Out(Cov([EndConn(c, "toomany") EXCEPT !.told = TRUE], "toomany"),
                                When(CountMax(c) < c.cfg.maxs, {"C12"}))
      [] OTHER -> Out([EndConn(c, "toomany") EXCEPT !.told = TRUE], {"C09", "C11", "C12", "C15"})
  ELSE IF c.st = "closing" THEN
    CASE e.r = "pend" -> Ok(c, "open-closing")
      [] e.r = "err" -> Out(Cov(Finish(c), "closed-by-opener"), When(~c.tc, {"C14", "C15"}))
      [] OTHER -> Out(c, {"C15"})
  ELSE
    CASE e.r = "err" -> Out(Cov([c EXCEPT !.told = TRUE], "open-ended"), {})
      [] OTHER -> Out(IF e.r = "ok" THEN [c EXCEPT !.s = (e.s :> [NewS("o", U(D), c.now) EXCEPT !.m = "no"]) @@ @] ELSE c,
                      {"C15"} \cup When(e.r = "pend", {"C05"}))

C0(c, e) == IF c.st = "active" THEN Ok(StartClosing(c), "close-start") ELSE Ok(c, "close-again")
C1(c, e) ==
  CASE e.r = "ok" ->
         IF c.st = "closing" THEN Out(Cov(Finish(c), "closed-by-closer"), When(~c.tc, {"C14"}))
         ELSE Out(Cov([c EXCEPT !.told = TRUE], "close-noop"), When(c.why = "err" /\ ~c.told, {"C14", "C16"}))
    [] e.r = "pend" -> Out(c, When(c.st # "closing", {"C14", "C15"}))
    [] OTHER -> Out(Cov([EndConn(c, "err") EXCEPT !.told = TRUE], "close-err"),
                    When(c.st # "ended" \/ c.why # "err" \/ c.told, {"C14"}))

Dc(c, e) == Ok([EndConn(c, "drop") EXCEPT !.told = TRUE], "conn-drop")

-----------------------------------------------------------------------------
(* Faults and transport *)
Werr(c, e) == Ok([(IF c.st = "ended" THEN c ELSE EndConn(c, "err")) EXCEPT !.werr = TRUE],
                 "werr-" \o c.st)
Tclose(c, e) == Out(Cov([c EXCEPT !.tc = TRUE], "tclose"),
                    When(c.st # "closing" \/ ~c.term \/ e.m \/ c.tc, {"C14"}))

-----------------------------------------------------------------------------
(* Quiescence: every task that was woken has been polled, none is runnable. *)

Swept(c) == \* with an unblocked transport all drops have been processed
  LET gone == {s \in DOMAIN c.s : c.s[s].m = "drop" /\ Untx(c.s[s]) = 0 /\ DropFrame(c.s[s]) = "none"}
  IN [c EXCEPT !.s = [s \in DOMAIN @ \ gone |-> @[s]]]

QParked(c, p, wb) ==
  LET s == p.s
      r == c.s[s]
  IN CASE p.k = "o" -> When(c.st = "ended", {"C05", "C15"})
                       \cup When(c.st = "active" /\ ~wb /\ BackMax(c) < BACKLOG, {"C05", "C11"})
       [] p.k = "cc" -> When(c.st = "ended", {"C05", "C14", "C15"})
       [] s \notin DOMAIN c.s -> {}
       [] p.k = "r" -> When(r.buf # <<>>, {"C05", "C20"})
                       \cup When(~CanRead(r), {"C05"} \cup EndBlame(c, r))
                       \cup When(CanRead(r) /\ c.st # "active", {"C05", "C15"})
       [] p.k = "w" -> LET live == c.st = "active" /\ CanWrite(r) IN
                       When(c.st = "active" /\ Untx(r) < QFULL /\ CanWrite(r) /\ r.sw # Zero, {"C05", "C20"})
                       \cup When(~live /\ (c.st # "active" \/ Untx(r) < QFULL), {"C05"} \cup EndBlame(c, r))
       [] OTHER -> When(c.st # "active", {"C05", "C15"})
                   \cup When(c.st = "active" /\ Untx(r) < QFULL, {"C05"})

Quiet(c0, e) ==
  LET unblocked == ~e.wb
      c == IF unblocked /\ e.d = "parked" THEN Swept(c0) ELSE c0
      recs == {c.s[s] : s \in DOMAIN c.s} \cup {c.left[s] : s \in DOMAIN c.left}
      queued == {r \in recs : Untx(r) > 0}
      owed == {r \in recs : r.m \in {"drop", "gone"} /\ DropFrame(r) # "none"}
      parked == e.d = "parked" /\ c.st = "active"
      rdp == {e.pk[i].s : i \in {j \in DOMAIN e.pk : e.pk[j].k = "r"}}
      v == UNION {QParked(c, e.pk[i], e.wb) : i \in DOMAIN e.pk}
           \cup When(parked /\ unblocked /\ queued # {},
                     {"C05", "C20"} \cup When(\E r \in queued : r.wq # <<>>, {"C03"})
                     \cup When(\E r \in queued : \E i \in DOMAIN r.dq : r.dq[i].k = "d", {"C01"})
                     \cup When(\E r \in queued : \E i \in DOMAIN r.dq : r.dq[i].k = "f", {"C07"})
                     \cup When(\E r \in queued : r.m # "yes", {"C08"}))
           \cup When(parked /\ unblocked /\ owed # {}, {"C05", "C08"})
           \cup When(parked /\ unblocked /\ c.pend # <<>>,
                     {"C05"} \cup UNION {c.pend[i].tags : i \in DOMAIN c.pend})
           \cup When(parked /\ unblocked /\ c.due /\ c.pg = "wait", {"C13"})
           \cup When(parked /\ unblocked /\ ~e.fb /\ e.uf > 0, {"C16"})
           \cup When(parked /\ e.rx > 0 /\ ~(e.wb /\ c.pend # <<>>), {"C05", "C20", "C17"})
           \cup When(parked /\ unblocked /\ \E s \in rdp \cap DOMAIN c.s : CanRead(c.s[s]) /\ c.s[s].buf = <<>> /\ WuDue(c.s[s]),
                     {"C03", "C05", "C06"})
           \cup When(c.st = "closing" /\ e.d # "none" /\ ~e.wb /\ ~e.fb, {"C14", "C05"})
           \cup When(c.st = "ended" /\ ~c.told, {"C15"} \cup When(c.werr, {"C16"}))
           \cup When(c.st = "ended" /\ e.d = "parked" /\ c.why # "local", {"C05", "C15"})
  IN Out(Cov(c, "Q-" \o c.st \o (IF e.wb THEN "-blocked" ELSE "")), v)

-----------------------------------------------------------------------------
(* Tasks interleave: the effect of an operation during which other tasks ran takes place at some
   moment between its call and its return.  The parts of an operation, each of which is atomic: *)
Parts(e) ==
  CASE e.e = "rd" -> <<[e EXCEPT !.e = "rd-credit"], [e EXCEPT !.e = "rd-buffer"]>>
    [] e.e = "rx" /\ e.y \in {0, 1} /\ ACK(e.f) -> <<[e EXCEPT !.e = "rx-ack"], e>>
    [] OTHER -> <<e>>
RxAck(c, e) ==
  IF c.st = "active" /\ Present(c, e.s) /\ c.s[e.s].st = "open" /\ ~RST(e.f) THEN Ok([c EXCEPT !.s[e.s].ackd = TRUE], "race-ack")
  ELSE Ok(c, "race-ack")

StreamEv == {"wr", "rd", "rd-credit", "rd-buffer", "fl", "cl", "dr", "q"}

Step(c, e) ==
  IF e.e \in StreamEv /\ e.s \notin DOMAIN c.s
  THEN Out(c, {})   \* a handle the specification never saw: reported when it appeared
  ELSE CASE e.e = "p0" -> P0(c, e)
         [] e.e = "p1" -> P1(c, e)
         [] e.e = "tx" -> Tx(c, e)
         [] e.e = "rx" -> Rx(c, e)
         [] e.e = "wr" -> Wr(c, e)
         [] e.e = "rd" -> Rd(c, e)
         [] e.e = "rd-credit" -> {[c |-> x, v |-> {}] : x \in WuOutcomes(c, e.s)}
         [] e.e = "rd-buffer" -> RdBuf(c, e)
         [] e.e = "rx-ack" -> RxAck(c, e)
         [] e.e = "fl" -> Fl(c, e)
         [] e.e = "cl" -> Cl(c, e)
         [] e.e = "dr" -> Dr(c, e)
         [] e.e = "q" -> Qs(c, e)
         [] e.e = "o0" -> O0(c, e)
         [] e.e = "o1" -> O1(c, e)
         [] e.e = "c0" -> C0(c, e)
         [] e.e = "c1" -> C1(c, e)
         [] e.e = "dc" -> Dc(c, e)
         [] e.e = "adv" -> Ok([c EXCEPT !.now = @ + e.n], "adv")
         [] e.e = "Q" -> Quiet(c, e)
         [] e.e = "rxeof" -> RxEnd(c, IF e.m THEN "err" ELSE "clean", IF e.m THEN "eof-mid" ELSE "eof-clean")
         [] e.e = "rxerr" -> RxEnd(c, "err", "rxerr")
         [] e.e = "rxbad" -> RxEnd(c, "err", "rxbad-" \o e.k)
         [] e.e = "werr" -> Werr(c, e)
         [] e.e = "wafter" -> Out(c, IF e.k = "close" THEN {"C14"} ELSE {"C16"})
         [] e.e = "txbad" -> Out(c, {"C16"})
         [] e.e = "tclose" -> Tclose(c, e)
         [] e.e = "cfgtry" -> Out(Cov(c, IF e.ok THEN "cfg-ok" ELSE "cfg-rejected"),
                                  When(e.ok # (e.maxc < 0 \/ e.maxc >= e.maxs * D), {"C04"}))
         [] e.e = "dup" -> Out(c, {"C09"})
         [] e.e = "fin" -> Out(Cov(c, "fin"), When(e.un # <<>>, {"C06"}))
         [] e.e = "panic" -> Out(c, ALL)
=============================================================================
