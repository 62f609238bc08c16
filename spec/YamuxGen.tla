------------------------------- MODULE YamuxGen -------------------------------
(***************************************************************************)
(* Schedules for the real code, derived from the specification.            *)
(*                                                                         *)
(* One endpoint, its application and an arbitrary peer.  Whether and how a *)
(* call returns, and what is sent, is taken from YamuxCore!Step (its legal *)
(* outcomes), so the states explored here are states of the specification. *)
(* The driver is a macro step (Settle): handle what arrived, send what can *)
(* be sent, let waiting calls return.  TLC explores all sequences of       *)
(* Family's actions breadth first, identifying states by View, and prints  *)
(* for every transition found the scenario that exercises it (Emit).       *)
(*                                                                         *)
(* One unit of data is 64 KiB: D = 4 units are 256 KiB in the real code.   *)
(***************************************************************************)
EXTENDS YamuxActs

CONSTANTS
  Server,     \* is the endpoint a server?
  MaxS,       \* configured maximum of streams
  MaxC,       \* configured connection window in units, or -1
  Rac,        \* read after close
  MaxOut,     \* streams opened locally
  MaxIn,      \* streams opened by the peer
  Depth,      \* length of the sequences
  Prefixes,   \* sequences of actions to start from
  ConnActs, StreamActs,  \* the alphabet
  Full        \* emit every transition (or only sequences that cannot be extended)

VARIABLES x, hist, left

vars == <<x, hist, left>>

Cfg == [srv |-> Server, maxs |-> MaxS, maxc |-> MaxC, rac |-> Rac, split |-> 16384]

RECURSIVE Settle(_)
Settle(y) ==
  LET c == y.c
      tx == IF y.blk THEN {} ELSE {e \in Sendable(c) : Legal(c, e) # {}}
      ready == {k \in DOMAIN y.pk : Retry(y, k).pk # y.pk}
  IN IF c.st = "active" /\ y.inq # <<>>
     THEN LET d == Go(c, Head(y.inq))
              a == IF d.aq # <<>> THEN Go(d, [e |-> "p1", r |-> "stream", s |-> Head(d.aq)]) ELSE d
          IN Settle([y EXCEPT !.c = a, !.inq = Tail(@)])
     ELSE IF c.st = "active" /\ Swept(c) # c /\ ~y.blk THEN Settle([y EXCEPT !.c = Swept(c)])
     ELSE IF tx # {} THEN Settle([y EXCEPT !.c = Go(c, Some(tx))])
     ELSE IF c.st = "closing" /\ c.tc
          THEN Settle([y EXCEPT !.c = Go(c, [e |-> "p1", r |-> "none", s |-> 0])])
     ELSE IF ready # {} THEN Settle(Retry(y, Some(ready)))
     ELSE IF c.st = "ended" /\ ~c.told THEN [y EXCEPT !.c.told = TRUE]
     ELSE y
Run(y) == Settle([y EXCEPT !.c = Go(@, [e |-> "p0"])])

Inj(y, yy, f, s, n) == Run([y EXCEPT !.inq = Append(@, [e |-> "rx", y |-> yy, f |-> f, s |-> s, h |-> n[1], l |-> n[2], p |-> 0])])

-----------------------------------------------------------------------------
(* The alphabet: names are steps of the harness, with sizes in units. *)

Handles(y) == {s \in DOMAIN y.c.s : y.c.s[s].h}
Ids(y) == y.ids
Parked(y, k) == k \in DOMAIN y.pk
Free(y, a, s) == s \in Handles(y) /\ ~Parked(y, <<a, s>>)
Max4 == <<65535, 65535>>

\* guard of a stream action
SOk(y, a, s) ==
  CASE a \in {"wr1", "wr8", "cl"} -> Free(y, "w", s)
    [] a \in {"rd1", "rd9", "rp"} -> Free(y, "r", s)
    [] a \in {"mr", "nr"} -> s \in Handles(y) /\ Parked(y, <<"r", s>>)
    [] a \in {"mw", "nw"} -> s \in Handles(y) /\ Parked(y, <<"w", s>>)
    [] a = "dr" -> s \in Handles(y)
    [] OTHER -> y.c.st = "active"
SDo(y, a, s) ==
  CASE a = "wr1" -> Call(y, <<"w", s>>, [o |-> "wr", k |-> 1])
    [] a = "wr8" -> Call(y, <<"w", s>>, [o |-> "wr", k |-> 8])
    [] a = "cl" -> Call(y, <<"w", s>>, [o |-> "cl", k |-> 0])
    [] a = "rd1" -> Call(y, <<"r", s>>, [o |-> "rd", k |-> 1])
    [] a = "rd9" -> Call(y, <<"r", s>>, [o |-> "rd", k |-> 9])
    [] a = "rp" -> Call(y, <<"r", s>>, [o |-> "rp", k |-> 0])
    [] a = "nr" -> [y EXCEPT !.pk = Without(@, <<"r", s>>)]
    [] a = "nw" -> [y EXCEPT !.pk = Without(@, <<"w", s>>)]
    [] a \in {"mr", "mw"} -> y
    [] a = "dr" -> [y EXCEPT !.c = Go(@, [e |-> "dr", s |-> s]),
                             !.pk = [k \in {z \in DOMAIN @ : z[2] # s} |-> @[k]]]
    [] a = "d0" -> Inj(y, 0, 0, s, Zero)
    [] a = "d1" -> Inj(y, 0, 0, s, U(1))
    [] a = "d2" -> Inj(y, 0, 0, s, U(2))
    [] a = "d4" -> Inj(y, 0, 0, s, U(4))
    [] a = "da" -> Inj(y, 0, 2, s, U(1))
    [] a = "df" -> Inj(y, 0, 4, s, U(1))
    [] a = "fi" -> Inj(y, 0, 4, s, Zero)
    [] a = "fa" -> Inj(y, 0, 6, s, Zero)
    [] a = "w1" -> Inj(y, 1, 0, s, U(1))
    [] a = "w4" -> Inj(y, 1, 0, s, U(4))
    [] a = "wa" -> Inj(y, 1, 2, s, Zero)
    [] a = "wf" -> Inj(y, 1, 4, s, U(1))
    [] a = "wx" -> Inj(y, 1, 0, s, Max4)
    [] a = "rs" -> Inj(y, 0, 8, s, Zero)
    [] a = "rw" -> Inj(y, 1, 8, s, Zero)
    [] a = "ps" -> Inj(y, 2, 1, s, U(7))
    [] a = "sd" -> Inj(y, 0, 1, s, Zero)
    [] a = "sw" -> Inj(y, 1, 1, s, Zero)

NextIn(y) == IF Server THEN 1 + 2 * y.nin ELSE 2 + 2 * y.nin
COk(y, a) ==
  CASE a = "open" -> ~Parked(y, <<"o", 0>>) /\ y.nout < MaxOut
    [] a \in {"s0", "s1", "s4", "s5", "sf", "w9", "wo"} -> y.nin < MaxIn /\ y.c.st = "active"
    [] a = "blk" -> ~y.blk
    [] a = "unb" -> y.blk
    [] a = "po" -> y.c.pg = "await" /\ y.c.st = "active"
    [] a \in {"t1", "t3", "t9"} -> y.adv < 3
    [] a \in {"cc", "dc", "eof", "em", "rerr", "werr", "ferr", "go", "ping", "bp", "un", "ud", "uw"} -> y.c.st # "ended" /\ ~y.gone
    [] OTHER -> TRUE
CDo(y, a) ==
  CASE a = "open" -> Call([y EXCEPT !.nout = @ + 1], <<"o", 0>>, [o |-> "open", k |-> 0])
    [] a = "s0" -> Inj([y EXCEPT !.nin = @ + 1, !.ids = @ \cup {NextIn(y)}], 1, 1, NextIn(y), Zero)
    [] a = "s1" -> Inj([y EXCEPT !.nin = @ + 1, !.ids = @ \cup {NextIn(y)}], 0, 1, NextIn(y), U(1))
    [] a = "s4" -> Inj([y EXCEPT !.nin = @ + 1, !.ids = @ \cup {NextIn(y)}], 0, 1, NextIn(y), U(4))
    [] a = "s5" -> Inj([y EXCEPT !.nin = @ + 1, !.ids = @ \cup {NextIn(y)}], 0, 1, NextIn(y), U(5))
    [] a = "sf" -> Inj([y EXCEPT !.nin = @ + 1, !.ids = @ \cup {NextIn(y)}], 0, 5, NextIn(y), U(1))
    [] a = "w9" -> Inj([y EXCEPT !.nin = @ + 1, !.ids = @ \cup {NextIn(y)}], 1, 5, NextIn(y), U(2))
    [] a = "wo" -> Inj([y EXCEPT !.nin = @ + 1, !.ids = @ \cup {NextIn(y)}], 1, 1, NextIn(y), Max4)
    [] a = "blk" -> [y EXCEPT !.blk = TRUE]
    [] a = "unb" -> Run([y EXCEPT !.blk = FALSE])
    [] a = "poll" -> Run(y)
    [] a = "po" -> Inj(y, 2, 2, 0, y.c.pid)
    [] a = "bp" -> Inj(y, 2, 2, 0, U(55))
    [] a = "ping" -> Inj(y, 2, 1, 0, U(9))
    [] a = "un" -> Inj(y, 2, 1, 99, U(9))
    [] a = "ud" -> Inj(y, 0, 4, 99, U(1))
    [] a = "uw" -> Inj(y, 1, 8, 98, U(1))
    [] a = "t1" -> [y EXCEPT !.c.now = @ + 1, !.adv = @ + 1]
    [] a = "t3" -> [y EXCEPT !.c.now = @ + 3, !.adv = @ + 1]
    [] a = "t9" -> [y EXCEPT !.c.now = @ + PINGIV, !.adv = @ + 1]
    [] a = "cc" -> Settle([y EXCEPT !.c = Go(@, [e |-> "c0"])])
    [] a = "dc" -> [y EXCEPT !.c = Go(@, [e |-> "dc"]), !.gone = TRUE]
    [] a = "eof" -> Settle([y EXCEPT !.c = Go(@, [e |-> "rxeof", m |-> FALSE])])
    [] a = "em" -> Settle([y EXCEPT !.c = Go(@, [e |-> "rxeof", m |-> TRUE])])
    [] a = "rerr" -> Settle([y EXCEPT !.c = Go(@, [e |-> "rxerr"])])
    [] a \in {"werr", "ferr"} -> IF y.blk /\ a = "werr" THEN y ELSE Settle([y EXCEPT !.c = Go(@, [e |-> "werr"])])
    [] a = "go" -> Inj(y, 3, 0, 0, Zero)

NoLimit == -1

X0 == [c |-> NewC(Cfg), pk |-> <<>>, blk |-> FALSE, inq |-> <<>>, ids |-> {}, nout |-> 0, nin |-> 0,
       adv |-> 0, gone |-> FALSE]

Str(a, s) == a \o "." \o ToString(s)
Cands == {<<a, 0>> : a \in ConnActs} \cup {<<a, s>> : a \in StreamActs, s \in Ids(x)}
IsConn(a) == a \in {"open", "s0", "s1", "s4", "s5", "sf", "w9", "wo", "blk", "unb", "poll", "po", "bp", "ping", "un", "ud", "uw",
                    "t1", "t3", "t9", "cc", "dc", "eof", "em", "rerr", "werr", "ferr", "go"}

RECURSIVE Join(_)
Join(h) == IF h = <<>> THEN "" ELSE Head(h) \o " " \o Join(Tail(h))

Can(y, a) == IF IsConn(a[1]) THEN COk(y, a[1]) ELSE a[2] \in Ids(y) /\ SOk(y, a[1], a[2])
Do(y, a) == IF IsConn(a[1]) THEN CDo(y, a[1]) ELSE SDo(y, a[1], a[2])
RECURSIVE After(_, _)
After(y, p) == IF p = <<>> THEN y
               ELSE IF Assert(Can(y, Head(p)), <<"prefix not possible", p>>) THEN After(Do(y, Head(p)), Tail(p)) ELSE y

Init == \E p \in Prefixes : /\ x = After(X0, p)
                             /\ hist = [i \in DOMAIN p |-> Str(p[i][1], p[i][2])]
                             /\ left = Depth
Next ==
  /\ left > 0
  /\ \E a \in Cands :
       /\ Can(x, a)
       /\ x' = Do(x, a)
       /\ hist' = Append(hist, Str(a[1], a[2]))
       /\ left' = left - 1
       /\ IF Full \/ left = 1 THEN PrintT("@SCN " \o Join(hist')) ELSE TRUE

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* When do two states count as the same? *)
LwClass(c, r) == IF c.rtt < 0 THEN 0 ELSE IF c.now - r.lw < 2 * c.rtt THEN 1 ELSE 2
RView(c, r) == <<r.dir, r.st, r.ackd, r.h, r.m, r.fl, r.wf, [i \in DOMAIN r.dq |-> <<r.dq[i].k, r.dq[i].n>>],
                 [i \in DOMAIN r.wq |-> r.wq[i].n], r.sw, r.rw, r.mw, SumL(r.buf), Len(r.buf), LwClass(c, r)>>
View == <<[s \in DOMAIN x.c.s |-> RView(x.c, x.c.s[s])], [s \in DOMAIN x.c.left |-> RView(x.c, x.c.left[s])],
          x.c.st, x.c.why, x.c.pend, x.c.pg, x.c.rtt, x.c.pg = "wait" /\ x.c.now >= x.c.pat, x.c.due, x.c.term, x.c.tc,
          x.pk, x.blk, x.ids, x.nout, x.nin, x.gone, x.adv>>

-----------------------------------------------------------------------------
(* The specification itself, on the states explored here *)
\* what the connection certainly counts as a stream
Sure(c) == PresentSet(c) \ MaybeGone(c)
SumMw(c) == SumF([s \in DOMAIN c.s |-> c.s[s].mw], Sure(c))
TypeOK ==
  LET c == x.c IN
  /\ \A s \in DOMAIN c.s : LET r == c.s[s] IN
       /\ r.rw >= 0 /\ (c.st = "active" => r.rw + SumL(r.buf) <= r.mw)          \* C03
       /\ r.mw >= D
       /\ Len(r.dq) <= QMAX
  /\ (c.st = "active" /\ MaxC >= 0) => SumMw(c) + (MaxS - Cardinality(Sure(c))) * D <= MaxC   \* C04
  /\ Cardinality(Sure(c)) <= MaxS                                          \* C12
  /\ BackMin(c) <= BACKLOG                                                       \* C11
  /\ Len(c.pend) <= PENDMAX                                                      \* C19
  /\ \A s \in DOMAIN c.s : c.st = "ended" => c.s[s].st = "cl"                    \* C15
=============================================================================
