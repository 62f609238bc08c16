import json
F=lambda *a:["yamux/src/"+x for x in a]
P=[]
def p(id,title,stmt,over,qt,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=F(*files),mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d["anchors"]["observe_at"]=obs or ["public API results","bytes crossing the transport"]
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
p("C01","Stream bytes arrive intact, in order and exactly once",
 "On every stream, the bytes an application reads are a prefix of the bytes the peer application successfully wrote on that same stream: none lost, duplicated, reordered, altered or taken from another stream. If the writer closed its side and the reader reaches end-of-stream without a reset or connection failure, it has read all of them. This holds however writes are split into frames, however the transport fragments bytes, and whether the reader reads bytes or packets.",
 ["inputs","schedules","histories","configurations"],"every set of streams, every sequence of reads/writes of every size, every fragmentation and every order of polling",
 "The tests send a few random messages over loopback TCP with one reading style; they never mix packet and byte reads, tiny transports, blocked writers and interleaved streams, and never control the schedule.",
 ["chunks.rs","connection.rs","connection/stream.rs","frame/io.rs"],
 [("chunk buffer and cursor","chunks.rs"),("per-stream FIFO command channel","connection.rs Active::poll"),("resumable frame reader/writer","frame/io.rs")],
 [("buffer","received but unread bytes","stream Shared.buffer")])
p("C02","Data sent never exceeds the credit the peer granted",
 "At every moment the data bytes an endpoint has sent on a stream are at most 256 KiB plus all credit the peer granted on that stream; with credit available a write takes a positive amount no larger than it, with none it waits. Credit that would overflow the 32-bit window is refused with a protocol-error go-away and changes nothing.",
 ["inputs","histories","schedules"],"every history of writes, window updates (any 32-bit credit, also on the opening frame) and transport stalls",
 "Tests use a cooperating peer that always replenishes; boundary credits, zero windows, overflow and credits on SYN frames are not reached.",
 ["connection/stream.rs","connection/stream/flow_control.rs","connection.rs"],
 [("send window checked arithmetic","flow_control.rs consume_send_window/increase_send_window_by"),("min(window, buffer, split) in poll_write","stream.rs poll_write")])
p("C03","Receive window: credit returned only for consumed bytes, excess refused",
 "For every stream, credit still usable by the peer plus bytes received but unread never exceeds that stream's receive window (256 KiB unless auto-tuned upwards). When the reader comes back having consumed at least half of the window, exactly the consumed amount (plus any window growth) is granted back. A data frame larger than the usable credit, also as first frame of a stream, is not delivered and is answered with a protocol-error go-away.",
 ["inputs","histories"],"every sequence of received frame sizes and application reads",
 "Existing tests never compare granted credit with consumed bytes and have no over-sending peer; only a unit property calls the window computation once on random state.",
 ["connection/stream/flow_control.rs","connection/stream.rs","connection.rs","chunks.rs"],
 [("next_window_update","flow_control.rs"),("consume_receive_window","flow_control.rs"),("first-frame size check","connection.rs on_data")])
p("C04","Connection-wide receive-window limit and auto-tuning rules",
 "The sum of the receive windows of all streams of a connection never exceeds the configured connection limit, and a configuration that cannot give every stream 256 KiB is rejected. A stream's window grows only when an update is due, a round-trip time has been measured and less than two round-trips passed since the previous update (or opening), and then it doubles unless the connection limit allows less. The share of a stream that is gone becomes available to others.",
 ["histories","configurations","schedules"],"every configuration, every history of reads, pings, stream lifetimes and elapsed times",
 "Needs control of time and several streams competing for the limit; loopback tests cannot steer RTT and the unit property looks at a single random controller once.",
 ["connection/stream/flow_control.rs","connection/rtt.rs","lib.rs"],
 [("window growth under accumulated limit","flow_control.rs next_window_update"),("release on drop","flow_control.rs Drop"),("rtt measurement","rtt.rs")])
p("C05","No lost wake-ups",
 "Every operation that returned Pending has its task woken once it can make progress: a reader on data, end-of-stream, reset or connection end; a writer, flusher or closer on credit, queue space, reset or connection end; an opener on a free acknowledgement slot or connection end; the connection driver on inbound bytes, transport writability, a newly opened stream, or any data, credit, close or drop by a stream. This holds also when reader and writer of one stream are different tasks.",
 ["schedules","histories"],"every order of polls, wake-ups and operations of the driver and of each stream half",
 "Tests run on executors that poll liberally and mostly from one task; a missing wake-up shows only under schedules that poll nothing but woken tasks.",
 ["connection.rs","connection/stream.rs","connection/cleanup.rs","connection/closing.rs"],
 [("reader/writer wakers","stream.rs Shared"),("opener waker, no-streams waker","connection.rs"),("mpsc channel wakers","futures-channel")])
p("C06","Two endpoints never deadlock while applications read",
 "Two connections of this implementation joined by any transport that eventually moves bytes, of whatever capacity and fragmentation, and polled whenever woken, always reach a point where every written byte has been delivered, every close has been seen and, if asked, both sides have closed, provided applications read the streams they keep. This includes both directions saturated at once, pings in flight and simultaneous close.",
 ["schedules","configurations","histories"],"every transport capacity (down to one byte), every interleaving of the two endpoints and all their streams",
 "One test exercises one stream over one small capacity; mutual saturation with pings or with simultaneous close is never reached.",
 ["connection.rs","connection/closing.rs","frame/io.rs"],
 [("reading continues while writes are blocked","connection.rs Active::poll"),("window updates on read","stream.rs send_window_update")])
p("C07","Half-close: one FIN after all data, reading continues, EOF only after data",
 "Closing a stream's write side makes the endpoint send exactly one FIN, after all data accepted before and with no data after it, however often close is called; later writes fail while reading continues. When the peer's FIN arrives the reader gets every byte received before it and then end-of-stream, never earlier, and can still write; the stream reports itself closed exactly when both sides are done.",
 ["histories","schedules","inputs"],"every order of local close, remote FIN (on data or window-update frames), reads, writes and queued data",
 "One test covers one order (write, close, read to end) with one message.",
 ["connection/stream.rs","connection.rs"],
 [("stream state machine","stream.rs update_state"),("CloseStream command through the data queue","stream.rs poll_close"),("FIN handling","connection.rs on_data/on_window_update")])
p("C08","Dropping a stream informs the peer; resets end both directions",
 "Dropping a stream that was not closed makes the endpoint send, after all data it accepted, a reset if the peer has not finished sending and otherwise a FIN; a stream already closed locally or reset sends nothing more. A received reset ends the stream: its reader gets what was buffered and then end-of-stream, writes fail, waiting tasks return, and no other stream is affected. A peer still sending on a stream whose other end was dropped is not left waiting forever.",
 ["histories","schedules"],"every state the stream can be in when dropped or reset, with queued data and blocked transports",
 "One test drops one open stream; the other states and queued or blocked situations are not reached.",
 ["connection.rs","connection/stream.rs"],
 [("on_drop_stream","connection.rs"),("RST handling","connection.rs on_data/on_window_update")])
p("C09","Stream ids and stream opening",
 "Streams opened locally get odd ids on a client and even non-zero ids on a server, strictly increasing and never reused within the connection. The first data, window-update or close frame of such a stream carries SYN and no later one does (a frame sent only because the handle was dropped needs none). An inbound SYN creates exactly one stream with that id, handed to the application once, unless the id is zero, has the wrong parity or is in use, which is answered by a protocol-error go-away and creates nothing.",
 ["histories","inputs"],"every order of opening, first use and closing, and every inbound SYN frame",
 "Tests never look at the wire flags, never send invalid SYNs and never close before first use.",
 ["connection.rs","connection/stream.rs","frame/header.rs"],
 [("next_stream_id","connection.rs"),("is_valid_remote_id","connection.rs"),("lazy SYN flag","stream.rs add_flag")])
p("C10","Every accepted stream is acknowledged exactly once, on first use",
 "An endpoint acknowledges a stream opened by its peer exactly once, on the first data, window-update or close frame it sends for it (a frame sent only because the handle was dropped needs none), and never sets the acknowledgement flag on another stream frame. Whether a stream reports itself as still unacknowledged is true exactly until that flag has been sent (inbound) or received (outbound) or the stream left the open state.",
 ["histories","schedules"],"every first use of an accepted stream (write, read that grants credit, close, drop) in every order",
 "One test covers first use by a write only.",
 ["connection/stream.rs","connection.rs"],
 [("Flag::Ack","stream.rs add_flag/poll_close"),("ACK processing","connection.rs on_frame")])
p("C11","Acknowledgement backlog limit of 256",
 "Opening a stream waits while 256 locally opened streams are open and unacknowledged, and succeeds (or is woken to succeed) as soon as fewer are, whether because one was acknowledged, finished, reset or dropped; the number of unacknowledged open streams never exceeds 256.",
 ["histories","schedules"],"every history of opens, acknowledgements, FINs, resets, closes and drops around the limit",
 "One test covers the limit with acknowledgements only, and polls the opener liberally.",
 ["connection.rs","lib.rs"],
 [("ack_backlog and opener waker","connection.rs poll_new_outbound/on_frame")])
p("C12","The number of open streams never exceeds the configured maximum",
 "The number of streams of a connection never exceeds the configured maximum, counting both directions. An inbound SYN beyond it is answered with a go-away error and creates no stream; a local open beyond it fails with a too-many-streams error. A stream counts until its handle is dropped and no longer, so dropping streams makes room again.",
 ["histories","configurations","inputs"],"every maximum (including zero), every mix of inbound and outbound opens and drops, for both kinds of opening frame",
 "One test opens n outbound streams and then one more; inbound refusal, mixed directions and slot release are not reached.",
 ["connection.rs","lib.rs"],
 [("limit checks","connection.rs on_data/on_window_update/poll_new_outbound"),("removal on drop","connection.rs on_drop_stream")])
p("C13","Pings are answered exactly once and pongs are matched",
 "Every ping received for the session or a live stream is answered by exactly one pong with the same value, in order, ahead of queued stream frames. The endpoint's own pings have distinct values, at most one is outstanding, the next follows at the first poll at least 10 s after the previous answer, and the first at the first poll. A pong that matches no outstanding ping is answered with a protocol-error go-away.",
 ["histories","schedules","inputs"],"every sequence of inbound pings and pongs (any value), elapsed times and blocked transports",
 "No test sends pings or controls time.",
 ["connection.rs","connection/rtt.rs"],
 [("on_ping","connection.rs"),("ping state machine","rtt.rs")])
p("C14","Graceful close sends everything accepted, then go-away, then closes",
 "Closing a connection sends every data, credit, close and reply frame accepted before the close, in stream order, then exactly one normal go-away, then closes the transport, and only then reports success; nothing is sent afterwards. It does so when the transport was in the middle of a frame or blocked, whichever poll function drives it, and closing again succeeds without effect.",
 ["histories","schedules"],"every content of the queues and every transport state at the moment of closing",
 "A unit test drains three prepared queues over a socket that never blocks.",
 ["connection.rs","connection/closing.rs","frame/io.rs"],
 [("Closing state machine","closing.rs"),("pending frames handover","connection.rs Active::close")])
p("C15","The end of a connection reaches every stream and is reported once",
 "When a connection ends for any reason (local close, go-away, end of transport, read, write or decode error, too many streams, drop) every stream ends: reads return the bytes already received and then end-of-stream (end-of-stream at once if read-after-close is off), writes fail, and nothing stays waiting. The driver reports an error at most once and from then on end-of-connection; clean ends are reported as such; opening afterwards fails.",
 ["fault_sequences","histories","schedules"],"every cause and every moment of the end, with streams in every state and tasks parked on them",
 "Tests end connections only in the orderly way, after streams are done.",
 ["connection.rs","connection/cleanup.rs","connection/closing.rs","connection/stream.rs"],
 [("drop_all_streams","connection.rs"),("Cleanup","cleanup.rs"),("ConnectionState transitions","connection.rs")])
p("C16","Output is a sequence of well-formed frames whatever the transport does",
 "The bytes an endpoint writes always form a sequence of complete frames (version 0, a known type, a header valid for it, data bodies of the announced length and at most the configured split size), with only the last possibly unfinished, for every pattern of partial writes and stalls, and written bytes are flushed. After the transport has reported a write or flush error, or accepted zero bytes, nothing more is written and the connection ends with an error.",
 ["fault_sequences","schedules","inputs"],"every pattern of partial, pending and failing writes at every byte position",
 "TCP loopback accepts whole frames; partial header writes and errors in mid-frame are not reached.",
 ["frame/io.rs","frame/header.rs","connection.rs","connection/stream.rs"],
 [("WriteState machine","frame/io.rs"),("split_send_size","stream.rs poll_write")])
p("C17","Any input bytes are handled without panic, independent of fragmentation",
 "For every byte sequence received, in every fragmentation, the endpoint neither panics nor spins, and acts on each complete frame exactly as if it had arrived in one piece. An unknown version or type, a data frame of more than 1 MiB, or end of input inside a frame ends the connection with a decode error after the effects of all earlier frames; end of input between frames is a clean end.",
 ["inputs","fault_sequences"],"every byte sequence, every split of it into reads, every truncation point",
 "Unit tests decode well-formed frames from memory; hostile frames and fragment boundaries are not reached.",
 ["frame/io.rs","frame/header.rs","connection.rs"],
 [("ReadState machine","frame/io.rs"),("header decode","header.rs"),("on_frame dispatch","connection.rs")])
p("C18","Frames for unknown or finished streams are ignored",
 "Data, window-update, FIN, ACK, reset or ping frames naming a stream that does not exist (never opened or already dropped) have no effect: nothing is sent in reply, the connection continues and all other streams are unaffected.",
 ["inputs","histories"],"every non-opening frame for every id without a stream, at every point of a session",
 "No test sends such frames; they arise only from races around drop.",
 ["connection.rs"],
 [("unknown-stream branches","connection.rs on_data/on_window_update/on_ping")])
p("C19","Buffering towards the transport is bounded",
 "While the transport does not accept data, the frames an endpoint accepts from each stream (at most 16) and the replies it owes the peer (at most 32) stay bounded: further writes wait and, once the reply bound is reached, nothing more is read from the transport until a reply is written.",
 ["histories","schedules","inputs"],"every amount of offered writes and inbound pings against a blocked transport",
 "No test blocks the transport and counts what is accepted.",
 ["connection.rs","connection/stream.rs"],
 [("bounded mpsc channel","connection.rs make_new_*_stream"),("bounded replies","connection.rs Active::poll")])
p("C20","Streams are independent: a stalled stream never stalls others",
 "A stream whose application does not read, whose peer grants no credit, or that was closed or reset never delays others: the endpoint goes on reading the transport, delivering to and sending for every other stream, and opening and accepting new ones.",
 ["schedules","histories"],"every set of stalled and active streams and every schedule",
 "Tests always read every stream.",
 ["connection.rs","connection/stream.rs"],
 [("per-stream buffers and channels","connection.rs"),("single pending frame","connection.rs Active::poll")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
print(len(P))
