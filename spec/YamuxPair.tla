------------------------------- MODULE YamuxPair -------------------------------
(***************************************************************************)
(* Two endpoints joined by a transport of bounded capacity, their          *)
(* applications and drivers.  Every step is a legal step of YamuxCore; the *)
(* guarantees that need both ends are stated here:                         *)
(*   credit is conserved, what is read is a prefix of what was written,    *)
(*   SYN/ACK/FIN/RST appear once, the ends agree on the state of a stream  *)
(*   when nothing is under way, no frame of one is refused by the other,   *)
(*   and as long as applications read, everything accepted arrives.        *)
(***************************************************************************)
EXTENDS YamuxActs

CONSTANTS
  CAP,        \* frames (or halves of those with data) one direction of the transport holds
  Opens,      \* <<n, m>>: streams opened by endpoint 1 and 2
  WMAX,       \* <<n, m>>: units endpoint 1 and 2 write on each stream
  WSZ,        \* set of sizes of writes
  RSZ,        \* set of sizes of reads
  Closes,     \* may streams be closed?
  Drops,      \* may streams be dropped?
  Ends,       \* may the connection be closed?
  Pings,      \* may the endpoints measure the round-trip time?
  Grow,       \* is a (long) round-trip time known from the start?
  MaxS, MaxC, Rac,
  Stalled,    \* streams nobody reads
  Split

VARIABLES c, w, g,
  k    \* k[i]: the frame endpoint i is writing

vars == <<c, w, k, g>>
P == {1, 2}
O(i) == 3 - i

Cfg(i) == [srv |-> i = 2, maxs |-> MaxS, maxc |-> MaxC, rac |-> Rac, split |-> Split]
G0 == [wrote |-> <<>>, got |-> <<>>, eof |-> {}, syn |-> <<>>, ack |-> <<>>, fin |-> <<>>, rst |-> <<>>, opened |-> 0,
       cut |-> {}, dropped |-> {}, closed |-> {}]
\* 32-bit values are pairs
Num(x) == x[1] * B16 + x[2]
At(f, s) == IF s \in DOMAIN f THEN f[s] ELSE 0
Inc(f, s, n) == IF n = 0 THEN f ELSE (s :> At(f, s) + n) @@ f

Init == /\ c = [i \in P |-> [NewC(Cfg(i)) EXCEPT !.rtt = IF Grow THEN 1 ELSE -1]]
        /\ w = [i \in P |-> <<>>]      \* w[i]: from endpoint i
        /\ k = [i \in P |-> <<>>]
        /\ g = [i \in P |-> G0]

\* what is only there to describe traces
Plain(d) == [d EXCEPT !.cov = {}, !.lrx = {}]
Do(i, e) == \E o \in Step(c[i], e) : o.v = {} /\ c' = [c EXCEPT ![i] = Plain(o.c)]

-----------------------------------------------------------------------------
(* Applications *)
Mine(i) == {s \in DOMAIN c[i].s : c[i].s[s].h}

Open(i) == /\ g[i].opened < Opens[i] /\ c[i].st = "active"
           /\ Do(i, [e |-> "o1", s |-> c[i].next, r |-> "ok", k |-> ""])
           /\ g' = [g EXCEPT ![i].opened = @ + 1]
           /\ UNCHANGED <<w, k>>
Write(i, s) == /\ At(g[i].wrote, s) < WMAX[i] /\ c[i].st = "active"
               /\ \E z \in WSZ :
                    LET n == Min(z, Min(Num(c[i].s[s].sw), WMAX[i] - At(g[i].wrote, s))) IN
                    /\ n > 0 /\ Untx(c[i].s[s]) <= QFULL
                    /\ Do(i, [WrEv(s, z, "ok", n) EXCEPT !.p = At(g[i].wrote, s)])
                    /\ g' = [g EXCEPT ![i].wrote = Inc(@, s, n)]
               /\ UNCHANGED <<w, k>>
CloseS(i, s) == /\ Closes /\ c[i].st = "active" /\ CanWrite(c[i].s[s]) /\ Untx(c[i].s[s]) <= QFULL
                /\ Do(i, [e |-> "cl", s |-> s, r |-> "ok"])
                /\ g' = [g EXCEPT ![i].closed = @ \cup {s}]
                /\ UNCHANGED <<w, k>>
DropS(i, s) == /\ Drops
               /\ Do(i, [e |-> "dr", s |-> s])
               /\ g' = [g EXCEPT ![i].dropped = @ \cup {s}]
               /\ UNCHANGED <<w, k>>
CloseC(i) == /\ Ends /\ c[i].st = "active"
             /\ Do(i, [e |-> "c0"])
             /\ UNCHANGED <<w, k, g>>
Ping(i) == /\ Pings /\ c[i].st = "active" /\ c[i].pg = "wait" /\ c[i].pat = 0 /\ ~c[i].due
           /\ Do(i, [e |-> "p0"])
           /\ UNCHANGED <<w, k, g>>

Readable(i, s) == s \notin Stalled /\ (c[i].s[s].buf # <<>> \/ (CanRead(c[i].s[s]) /\ c[i].st = "active" /\ WuDue(c[i].s[s]) /\ Untx(c[i].s[s]) < QFULL))
Read(i, s) ==
  /\ s \notin Stalled
  /\ LET buf == c[i].s[s].buf IN
     IF buf # <<>>
     THEN \E z \in RSZ : LET x == Take(buf, z) IN
            /\ Do(i, RdEv(s, z, "data", x))
            /\ g' = [g EXCEPT ![i].got = Inc(@, s, SumL(x))]
     ELSE IF CanRead(c[i].s[s]) /\ c[i].st = "active"
     THEN WuDue(c[i].s[s]) /\ Do(i, RdEv(s, 1, "pend", <<>>)) /\ UNCHANGED g
     ELSE s \notin g[i].eof /\ Do(i, RdEv(s, 1, "eof", <<>>))
          /\ g' = [g EXCEPT ![i].eof = @ \cup {s},
                            ![i].cut = IF c[i].s[s].st = "cl" THEN @ \cup {s} ELSE @]
  /\ UNCHANGED <<w, k>>

-----------------------------------------------------------------------------
(* Drivers and transport *)
B(x) == IF x THEN 1 ELSE 0
Sends(i) == {e \in Sendable(c[i]) : Legal(c[i], e) # {}}
\* the driver takes the next frame
Send(i) == /\ k[i] = <<>>
           /\ \E e \in Sends(i) :
                /\ Do(i, e)
                /\ k' = [k EXCEPT ![i] = (IF e.e = "tx" /\ e.y = 0 /\ e.l > 0 THEN <<[y |-> 8]>> ELSE <<>>)
                           \o <<IF e.e = "tclose" THEN [y |-> 9] ELSE
                               [y |-> e.y, f |-> e.f, s |-> e.s, h |-> e.h, l |-> e.l, p |-> e.p]>>]
                /\ g' = IF e.e = "tclose" \/ e.y > 1 THEN g
                        ELSE [g EXCEPT ![i].syn = Inc(@, e.s, B(SYN(e.f))), ![i].ack = Inc(@, e.s, B(ACK(e.f))),
                                       ![i].fin = Inc(@, e.s, B(FIN(e.f))), ![i].rst = Inc(@, e.s, B(RST(e.f)))]
           /\ UNCHANGED w
\* ... and writes it, one with data in two parts
Room(i) == Len(w[i]) < CAP
Push(i) == /\ k[i] # <<>> /\ Room(i)
           /\ w' = IF c[O(i)].st = "ended" THEN w ELSE [w EXCEPT ![i] = Append(@, Head(k[i]))]
           /\ k' = [k EXCEPT ![i] = Tail(@)]
           /\ UNCHANGED <<c, g>>
Reads(i) == w[O(i)] # <<>> /\ Len(c[i].pend) < PENDMAX
Part(i) == /\ Reads(i) /\ Head(w[O(i)]).y = 8
           /\ w' = [w EXCEPT ![O(i)] = Tail(@)] /\ UNCHANGED <<c, k, g>>
Recv(i) ==
  /\ Reads(i) /\ Head(w[O(i)]).y # 8
  /\ LET m == Head(w[O(i)])
         e == IF m.y = 9 THEN [e |-> "rxeof", m |-> FALSE]
              ELSE [e |-> "rx", y |-> m.y, f |-> m.f, s |-> m.s, h |-> m.h, l |-> m.l, p |-> m.p]
     IN \E o \in Step(c[i], e) :
          /\ o.v = {}
          /\ \E q \in (IF o.c.aq = <<>> THEN {[c |-> o.c, v |-> {}]}
                       ELSE Step(o.c, [e |-> "p1", r |-> "stream", s |-> Head(o.c.aq)])) :
               q.v = {} /\ c' = [c EXCEPT ![i] = Plain(q.c)]
  /\ w' = [w EXCEPT ![O(i)] = IF c'[i].st = "ended" THEN <<>> ELSE Tail(@)]
  /\ k' = [k EXCEPT ![i] = IF c'[i].st = "ended" THEN <<>> ELSE @]
  /\ UNCHANGED g
Sweep(i) == Swept(c[i]) # c[i] /\ c' = [c EXCEPT ![i] = Swept(@)] /\ UNCHANGED <<w, k, g>>
Finished(i) == /\ c[i].st = "closing" /\ c[i].tc /\ k[i] = <<>>
               /\ Do(i, [e |-> "p1", r |-> "none", s |-> 0])
               /\ w' = [w EXCEPT ![O(i)] = <<>>]
               /\ UNCHANGED <<k, g>>
Told(i) == /\ c[i].st = "ended" /\ ~c[i].told
           /\ Do(i, [e |-> "p1", r |-> "none", s |-> 0]) /\ UNCHANGED <<w, k, g>>

Driver(i) == Send(i) \/ Push(i) \/ Part(i) \/ Recv(i) \/ Sweep(i) \/ Finished(i) \/ Told(i)
Next == \E i \in P :
          \/ Open(i) \/ CloseC(i) \/ Ping(i) \/ Driver(i)
          \/ \E s \in Mine(i) : Write(i, s) \/ CloseS(i, s) \/ DropS(i, s) \/ Read(i, s)
Spec == Init /\ [][Next]_vars

Streams == 1..(2 * (Opens[1] + Opens[2] + 1))
ReadAny(i, s) == s \in Mine(i) /\ Read(i, s)
Fair == \A i \in P : WF_vars(Send(i)) /\ WF_vars(Push(i)) /\ WF_vars(Part(i)) /\ WF_vars(Recv(i)) /\ WF_vars(Sweep(i)) /\ WF_vars(Finished(i)) /\ WF_vars(Told(i))
                     /\ \A s \in Streams : WF_vars(ReadAny(i, s))
FairSpec == Spec /\ Fair

-----------------------------------------------------------------------------
(* What holds *)

\* what is on its way from i
Under(i) == w[i] \o k[i]
RECURSIVE Flow(_, _, _)
Flow(q, s, y) == IF q = <<>> THEN 0
                 ELSE (IF Head(q).y = y /\ Head(q).s = s /\ ~RST(Head(q).f) THEN Num(<<Head(q).h, Head(q).l>>) ELSE 0) + Flow(Tail(q), s, y)
RECURSIVE Queued(_)
Queued(q) == IF q = <<>> THEN 0 ELSE Num(Head(q).n) + Queued(Tail(q))

Lives(i, s) == s \in DOMAIN c[i].s /\ c[i].s[s].m = "yes"
ByteFlow(i, s) == Queued(c[i].s[s].dq) + Flow(Under(i), s, 0)
\* C02, C03: what the writer may still send, what is under way in either direction, and what the reader counts as granted
Credit == \A i \in P : \A s \in DOMAIN c[i].s :
  (/\ Lives(i, s) /\ Lives(O(i), s) /\ c[1].st = "active" /\ c[2].st = "active"
   /\ CanRead(c[O(i)].s[s]) /\ ~(\E j \in DOMAIN Under(i) : Under(i)[j].y = 0 /\ Under(i)[j].s = s /\ RST(Under(i)[j].f)))
    => Num(c[i].s[s].sw) + ByteFlow(i, s) + Queued(c[O(i)].s[s].wq) + Flow(Under(O(i)), s, 1) = c[O(i)].s[s].rw
Windows == \A i \in P : \A s \in DOMAIN c[i].s : LET r == c[i].s[s] IN
             r.rw >= 0 /\ (c[i].st = "active" /\ r.h => r.rw + SumL(r.buf) <= r.mw) /\ r.mw >= D
\* C04
Sure(d) == PresentSet(d) \ MaybeGone(d)
Share == \A i \in P : (MaxC >= 0 /\ c[i].st = "active") =>
           SumF([s \in DOMAIN c[i].s |-> c[i].s[s].mw], Sure(c[i])) + (MaxS - Cardinality(Sure(c[i]))) * D <= MaxC
\* C01: positions are consecutive from the first byte: a prefix of what was written
RECURSIVE From(_, _)
From(buf, p) == buf = <<>> \/ (Head(buf)[1] = p /\ From(Tail(buf), p + Head(buf)[2]))
Prefix == \A i \in P : \A s \in DOMAIN c[i].s :
            /\ (c[i].s[s].h => From(c[i].s[s].buf, At(g[i].got, s)))
            /\ At(g[i].got, s) + SumL(c[i].s[s].buf) <= At(g[O(i)].wrote, s)
\* C07, C08, C15: end-of-stream after everything, unless the stream or the connection was cut short
EofLast == \A i \in P : \A s \in g[i].eof :
             \/ At(g[i].got, s) = At(g[O(i)].wrote, s) /\ s \in g[O(i)].closed \cup g[O(i)].dropped
             \/ s \in g[O(i)].dropped \cup g[i].dropped
             \/ c[1].st # "active" \/ c[2].st # "active"
Once == \A i \in P : \A s \in Streams :
          At(g[i].syn, s) <= 1 /\ At(g[i].ack, s) <= 1 /\ At(g[i].fin, s) + At(g[i].rst, s) <= 2
          /\ At(g[i].fin, s) <= 1 /\ At(g[i].rst, s) <= 1
          /\ (At(g[i].syn, s) > 0 => s % 2 = i % 2) /\ (At(g[i].ack, s) > 0 => s % 2 # i % 2)
\* frames of one end are never refused by the other
NoRefusal == \A i \in P : \A j \in DOMAIN c[i].pend : c[i].pend[j].y = 2
Limits == \A i \in P : /\ BackMin(c[i]) <= BACKLOG /\ Len(c[i].pend) <= PENDMAX
                       /\ \A s \in DOMAIN c[i].s : Untx(c[i].s[s]) <= QMAX

\* nothing can happen without the applications doing more than read
Still == \A i \in P : /\ ~(k[i] = <<>> /\ Sends(i) # {}) /\ ~(k[i] # <<>> /\ Room(i)) /\ ~Reads(i) /\ Swept(c[i]) = c[i]
                      /\ ~(c[i].st = "closing" /\ c[i].tc /\ k[i] = <<>>) /\ (c[i].st = "ended" => c[i].told)
                      /\ \A s \in Mine(i) : ~Readable(i, s)
Settled == /\ \A i \in P : Under(i) = <<>> /\ c[i].pend = <<>> /\ c[i].st # "closing"
           /\ \A i \in P : \A s \in DOMAIN c[i].s : Untx(c[i].s[s]) = 0 /\ (c[i].s[s].h => s \in Stalled \/ c[i].s[s].buf = <<>>)
           /\ \A i \in P : DOMAIN c[i].left = {}
           /\ (c[1].st = "ended") = (c[2].st = "ended")
Agree == \A i \in P : \A s \in DOMAIN c[i].s :
   LET r == c[i].s[s] IN
   (c[i].st = "active" /\ r.m = "yes") =>
     IF Lives(O(i), s)
     THEN LET q == c[O(i)].s[s] IN
          /\ (r.st = "open" <=> q.st = "open") /\ (r.st = "sc" <=> q.st = "rc") /\ (r.st = "cl" <=> q.st = "cl")
          /\ r.dir # q.dir
          /\ (r.st = "open" => r.ackd = q.ackd)
          \* nobody waits for credit: a reader that has read everything has returned at least half of the window
          /\ (CanWrite(r) /\ s \notin Stalled => Num(r.sw) > D \div 2)
          /\ (s \notin Stalled => At(g[O(i)].got, s) = At(g[i].wrote, s))
     ELSE \/ s \in g[O(i)].dropped /\ (r.st = "cl" \/ (r.st = "rc" /\ s \in g[O(i)].closed))
          \/ s \notin DOMAIN g[i].syn /\ s % 2 = i % 2    \* never announced
\* C06, C20
NoDeadlock == Still => Settled /\ (c[1].st = "active" /\ c[2].st = "active" => Agree)
Inv == Credit /\ Windows /\ Share /\ Prefix /\ EofLast /\ Once /\ NoRefusal /\ Limits /\ NoDeadlock

\* with fairness: everything settles, whenever the applications stop starting new things
Progress == []<>Still
=============================================================================
