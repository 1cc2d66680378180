import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
YS="yamux/src/session.rs"; YT="yamux/src/stream.rs"; YF="yamux/src/frame.rs"; YC="yamux/src/control.rs"
p("Y01","Multiplexed streams deliver exactly the written bytes, in order",
"The bytes an application reads from a multiplexed stream are exactly the bytes the other side wrote to that same stream, in order, with nothing lost, duplicated, altered or taken from another stream. While both sides keep the session and the stream open and keep reading, every byte that a write accepted is eventually read.",
["schedules","histories","configurations"],"every interleaving of writes, reads, opens, accepts and transport progress over any number of streams and any window size",
"The unit tests run a handful of fixed schedules with a 256 KiB window and one or two streams; interleavings of blocked per-stream queues, partial transport writes and window exhaustion are not sampled.",
[YS,YT,YF],[("per-stream ordered distribution with a blocked set","yamux/src/session.rs distribute_to_substream"),("single read buffer refilled only when empty","yamux/src/stream.rs recv_frames/handle_data"),("write splitting by window","yamux/src/stream.rs poll_write"),("ordered frame output","yamux/src/session.rs send_all")],
[("read_pending_frames","frames received and not yet handed to their stream","yamux/src/session.rs"),("write_pending_frames","frames not yet handed to the transport","yamux/src/session.rs")],["stream read and write results","frames on the transport"])
p("Y02","Per-stream flow control is respected, enforced and never deadlocks",
"On each stream a sender never has more unconsumed bytes outstanding than the window the receiver granted, and a receiver grants credit only for bytes its application has consumed. A peer's bytes that overrun the window when the application gets to them are not delivered and are answered with a protocol error. With equal windows on both sides, a waiting writer whose application also reads the stream continues once the other side has consumed enough, whatever the window size.",
["schedules","histories","configurations","inputs"],"all write/read sizes, window sizes, interleavings and overrunning peers",
"Tests use one default window and never drive a stream to exhaustion from both sides at once, nor a peer that overruns by one byte.",
[YT,YS],[("send window bookkeeping","yamux/src/stream.rs poll_write, handle_window_update"),("receive window bookkeeping and threshold","yamux/src/stream.rs send_window_update, handle_data")],
[("send_window","bytes this side may still send","yamux/src/stream.rs"),("recv_window","bytes the other side may still send","yamux/src/stream.rs")],["data and window frames on the transport","blocked writes"])
p("Y03","A stalled stream never blocks the other streams of its session",
"When the application stops reading or writing one stream, or that stream is reset or dropped, all other streams of the same session, new streams and keepalive replies continue to make progress.",
["schedules","histories"],"every choice of stalled streams and every interleaving with traffic on the others",
"One test stalls one stream with one pattern; the blocked-queue logic depends on which streams fill up, in which order, and how frames of different streams interleave.",
[YS,YT],[("blocked set, other streams keep going","yamux/src/session.rs distribute_to_substream"),("bounded queue per stream","yamux/src/session.rs create_stream")],None,["progress of reads and writes on the remaining streams"])
p("Y04","Stream close delivers everything first, reset and drop end the stream",
"When one side closes a stream after writing, the other side reads all bytes written before the close and only then end-of-stream; it never sees end-of-stream earlier. Writing after closing fails, dropping an open stream or refusing it makes the other side's operations on it fail, and neither affects any other stream.",
["schedules","histories"],"all orders of write, close, drop and read on both sides and all interleavings with the transport",
"Tests check a few fixed close sequences on one side; the state machine has eight states per side and its product with in-flight frames is not enumerated.",
[YT,YS],[("close state machine","yamux/src/stream.rs close, process_flags, check_self_state"),("reset on drop","yamux/src/stream.rs Drop")],[("state","open, half closed, closed or reset","yamux/src/stream.rs StreamState")],["read and write results","FIN and RST flags on the transport"])
p("Y05","Inbound stream limits hold and finished streams free their slot",
"A session never accepts a remote request for a stream when it already has its configured maximum of live streams; each request beyond the limit is refused with a reset and disturbs nothing else, and no request within it is refused. Once a stream has ended on this side its slot can be used again, so a peer that opens and finishes streams one after another is never refused.",
["histories","schedules","configurations"],"all open/accept/close histories and all limit values",
"No test reaches the limits; leaks of slots show only after long open/close histories with specific endings.",
[YS,YT,"yamux/src/config.rs"],[("limit test on SYN","yamux/src/session.rs distribute_to_substream"),("slot release","yamux/src/session.rs handle_event; yamux/src/stream.rs close, Drop")],[("streams","live streams","yamux/src/session.rs"),("pending_streams","streams not yet accepted","yamux/src/session.rs")],["accepted streams","reset replies on the transport"])
p("Y06","When a session ends, no stream or control operation is left hanging",
"Whenever a session ends, because the transport closed or failed, because either side said go-away, or because its owner dropped it, every pending and every later read, open and close on its streams and controls, and every write on a stream whose application also reads it, completes with an error or end-of-stream instead of waiting forever. Data that had already reached a stream stays readable.",
["schedules","fault_sequences","crash_points"],"transport failure or termination at every point of every history",
"Tests end sessions at one or two fixed points with idle streams; a lost wake-up needs an operation pending at the moment of the failure.",
[YS,YT,YC],[("channel closure propagates to streams","yamux/src/stream.rs recv_frames"),("waking a blocked writer","yamux/src/stream.rs writeable_wake"),("control answers through one-shot channels","yamux/src/control.rs")],None,["completion of pending operations after the session's end"])
p("Y07","A hostile multiplexing peer cannot crash the session or forge data",
"Whatever bytes the peer sends, the session never panics, never delivers bytes to a stream that no valid data frame for that stream carried, and never loops without bound. Malformed frames end the session with an error, and protocol violations (reuse of a live stream id, or window overflow and overrun once the application reads that far) are answered with go-away and end the session.",
["inputs","histories"],"all byte sequences and all frame sequences from the peer",
"Tests feed well-formed frames only, apart from one oversize window case; the input space is unbounded.",
[YF,YS,YT],[("header validation","yamux/src/frame.rs decode"),("duplicate stream detection","yamux/src/session.rs create_stream"),("window checks","yamux/src/stream.rs handle_data, handle_window_update")],None,["session result","go-away frames","bytes read by the application"])
p("Y08","Keepalive answers every ping and detects exactly the silent peers",
"Every ping request is answered with a reply carrying the same identifier. With keepalive on, a peer that stops answering is reported as timed out within a bounded time, and a session whose peer answers each ping is never ended by keepalive, however long it lives and whatever its window size.",
["histories","schedules","configurations"],"all reply delays and losses, all session lifetimes and configurations",
"No test lets a session live through more than a few intervals or drops individual replies.",
[YS,YF],[("ping bookkeeping","yamux/src/session.rs keep_alive, handle_ping"),("frame length check","yamux/src/frame.rs decode")],[("pings","unanswered pings","yamux/src/session.rs")],["ping frames on the transport","session result"])
p("Y09","Frame parsing does not depend on how the transport splits bytes",
"The sequence of frames a receiver recognises depends only on the byte sequence, not on how it is cut into reads, and encoding then decoding any valid frame gives back the same frame. A sender writes whole frames in order whatever partial writes and write-blocking the transport performs.",
["inputs","schedules"],"every cut of every byte stream and every pattern of partial writes",
"The codec test decodes one frame from one buffer.",
[YF,YS],[("header kept while the body is incomplete","yamux/src/frame.rs decode"),("poll_ready/start_send/flush loop","yamux/src/session.rs send_all")],None,["frames decoded","bytes on the transport"])
p("Y10","Closing a session notifies the peer, refuses new streams and terminates",
"After one side closes a session the other side is told with a go-away, both sessions end, and from then on neither side accepts a stream or transmits stream data that the other would deliver. The closing side also ends within the configured timeout if the peer never answers.",
["schedules","fault_sequences"],"close at every point of every history, with responsive and silent peers",
"Tests close idle sessions; a close crossing with opens, with a full transport, or against a silent peer is not covered.",
[YS,YC],[("go-away handling and timeout reuse of the timer","yamux/src/session.rs send_go_away_with_code, handle_go_away, poll_next")],[("local_go_away/remote_go_away","who said go-away","yamux/src/session.rs")],["go-away frames","session result","open results"])
SP="secio/src/handshake/procedure.rs"; SC="secio/src/handshake/handshake_context.rs"; SS="secio/src/codec/secure_stream.rs"; SU="secio/src/support.rs"
p("S01","Two honest peers agree on keys, algorithms and identities",
"When two honest peers run the handshake over a faithful transport and their offered algorithms intersect in every category, both succeed, each reports exactly the other's public key, and each can read what the other sends. When some category does not intersect, or a peer meets its own identity, both sides fail.",
["configurations","inputs","schedules"],"every pair of preference lists, every key pair, every chunking of the transport",
"Tests use default or two hand-picked preference lists, always in one order; who ends up ordering the choice is random.",
[SP,SC,SU,"secio/src/handshake/mod.rs"],[("deterministic selection by ordering hash","secio/src/handshake/handshake_context.rs with_ephemeral / support.rs select_*"),("key split by role","secio/src/handshake/procedure.rs generate_stream_cipher_and_hmac")],None,["handshake results on both sides","first messages"])
p("S02","An active attacker cannot make a handshake succeed under a false identity",
"A handshake that succeeds proves that the holder of the reported public key took part in this very handshake: under any replacement, modification, replay, reflection or mixing of handshake messages from this and other runs, an honest side either fails or ends up connected to the peer it reports. No side ever completes with itself as the remote.",
["inputs","histories","fault_sequences"],"every sequence of attacker actions on messages of concurrent and earlier handshakes",
"The tests contain no attacker at all.",
[SP,SC,"secio/src/exchange.rs","secio/src/peer_id.rs"],[("signature over both proposals and the ephemeral key","secio/src/handshake/procedure.rs"),("fresh nonces in the proposals and nonce check on the encrypted channel","secio/src/handshake/procedure.rs verify_nonce"),("own key rejected","secio/src/handshake/handshake_context.rs")],None,["handshake results under an attacker on the wire"])
p("S03","The encrypted stream delivers exactly the bytes sent, for any chunking",
"After a handshake the bytes read on one side are exactly the bytes written on the other, in order and complete, for every size of write, every size of read buffer, every splitting of the transport and every agreed cipher. The end of the transport is reported only after all complete messages have been read.",
["inputs","schedules","configurations"],"all message sizes, buffer sizes, chunkings and cipher choices",
"Tests send one message per cipher with matching buffer sizes.",
[SS,"secio/src/crypto","secio/src/codec"],[("leftover buffer drained first","secio/src/codec/secure_stream.rs poll_read/drain"),("one frame per write","secio/src/codec/secure_stream.rs poll_write")],[("recv_buf","decrypted bytes not yet read","secio/src/codec/secure_stream.rs")],["bytes read"])
p("S04","Any tampering with the encrypted stream is detected before delivery",
"If any encrypted message is altered, dropped, duplicated, reordered, truncated, reflected, or replayed from another connection, the reader gets an error at that point and no byte that the peer did not send at that position is ever delivered. Equal plaintexts never produce equal encrypted messages within a connection, and plaintext never appears on the wire.",
["fault_sequences","inputs"],"every manipulation of every encrypted message sequence",
"Tests never modify ciphertext.",
[SS,"secio/src/crypto/openssl_impl.rs","secio/src/crypto/ring_impl.rs","secio/src/crypto/cipher.rs"],[("authenticated encryption with a per-message counter","secio/src/crypto"),("separate keys per direction","secio/src/handshake/procedure.rs")],None,["read results under wire manipulation"])
p("S05","Malformed or oversized handshake input is rejected without panic",
"Whatever bytes arrive instead of a handshake message (truncated, oversized, garbage, wrong field contents, or end of stream at any byte), the handshake ends with an error and never panics, never succeeds and never waits for data it has already been told will not come.",
["inputs","crash_points"],"all byte strings at every handshake step and end of stream at every byte",
"Tests only run complete, well-formed handshakes.",
[SP,SC,"secio/src/handshake/handshake_struct.rs"],[("length-delimited frames with a maximum","secio/src/handshake/procedure.rs"),("checked decoding","secio/src/handshake/handshake_struct.rs")],None,["handshake result"])
CH="tentacle/src/channel/bound.rs"
p("C01","Internal message queues keep every message once, in order, high first",
"Every message that a sender successfully puts into one of the library's two-priority queues is received exactly once, as long as the receiver lives. Messages of one sender and one priority arrive in sending order, and whenever a high-priority message is waiting it is received before every waiting normal one.",
["schedules","histories"],"all interleavings of any number of concurrent senders and the receiver",
"Tests use one sender and a fixed schedule; the queue is a lock-free structure shared by many tasks.",
["tentacle/src/channel/queue.rs",CH,"tentacle/src/channel/unbound.rs"],[("lock-free multi-producer queue","tentacle/src/channel/queue.rs"),("high queue polled first","tentacle/src/channel/bound.rs next_message")],None,["received sequence"],"none: the queue sources are compiled into the harness")
p("C02","Internal message queues bound memory, wake waiters and close cleanly",
"A bounded queue never holds more than its capacity plus one message per sender; a sender that waited for room and a receiver that waited for a message are woken when they can continue. After the receiver closes, sends fail, already queued messages can still be received, and after the last sender is gone the receiver sees the end exactly when the queue is empty.",
["schedules","histories"],"all interleavings of send, receive, close, clone and drop",
"Lost wake-ups and miscounted capacity need particular interleavings of park and unpark.",
[CH,"tentacle/src/channel/unbound.rs","tentacle/src/channel/sink_impl.rs","tentacle/src/buffer.rs"],[("packed open flag and message count","tentacle/src/channel/state.rs, bound.rs inc_num_messages"),("parked sender queue","tentacle/src/channel/bound.rs unpark_one")],[("num_messages","messages in both queues","tentacle/src/channel/bound.rs")],["send results","wake-ups","end of stream"],"none: the queue sources are compiled into the harness")
SV="tentacle/src/service.rs"; SE="tentacle/src/session.rs"; SB="tentacle/src/substream.rs"; PH="tentacle/src/protocol_handle_stream.rs"; SCt="tentacle/src/service/control.rs"
HK="guarded in-memory transport and scheduling hook"
p("T01","Each connection yields one open event and exactly one close event",
"For every session the service reports opened exactly once and, when it ends for whatever reason, closed exactly once and later, with the same identifier, address and direction; identifiers are never reused. A session ends only for a reason (a disconnect, failure, timeout or shutdown on either side), and after its close the service reports no further event or error about it.",
["schedules","histories","fault_sequences"],"every interleaving of dials, messages, local and remote disconnects, transport failures and shutdown",
"Tests count a few events on loopback with one schedule; ends racing each other (local disconnect, remote close, error) are not enumerated.",
[SV,SE],[("session table and id generator","tentacle/src/service.rs session_open, session_close"),("session close states","tentacle/src/session.rs poll_next, close_session")],[("sessions","live sessions","tentacle/src/service.rs")],["service events","protocol callbacks"],HK)
p("T02","Protocol callbacks follow open, messages, close, each exactly once",
"For every protocol opened on a session, its handler sees connected once, then that protocol's messages, then disconnected once when the protocol or the session ends (unless the whole service is shutting down), and nothing for that protocol instance outside this bracket. Opening a protocol that is already open changes nothing, and a closed protocol can be opened again.",
["schedules","histories","fault_sequences"],"every interleaving of open, close, message and disconnect from both sides, for every kind of handler",
"Tests check a few open/close sequences with sleeps; the races between protocol close, session close and pending messages are timing dependent.",
[SB,SE,PH,SV],[("open and close notifications to handlers","tentacle/src/substream.rs proto_open, close_proto_stream"),("handler loops","tentacle/src/protocol_handle_stream.rs")],[("proto_streams","open protocols of a session","tentacle/src/session.rs")],["handler callbacks","protocol events"],HK)
p("T03","Protocol messages arrive once, intact, in order per priority",
"Messages sent to a peer on one protocol with the same priority are delivered to that protocol's handler on that session in sending order, byte-exact and at most once; while the session and protocol stay open, all of them are eventually delivered, under any back-pressure. No message reaches another protocol, another session or the sender itself.",
["schedules","histories","inputs","configurations"],"all message sizes, rates, buffer sizes, priorities and interleavings over several protocols and sessions",
"Tests send one or a few messages or measure totals; loss and reordering at full buffers need particular interleavings.",
[SB,SE,SV,"tentacle/src/buffer.rs","tentacle/src/context.rs"],[("ordered buffers at every hop","tentacle/src/buffer.rs, tentacle/src/session.rs distribute_to_substream"),("two-level write buffers","tentacle/src/substream.rs send_data")],None,["payloads received by handlers"],HK)
p("T04","Send targets select exactly the intended sessions",
"A message sent to one session, to a list of sessions or to all sessions is delivered exactly once to each selected session that has the protocol open, and to no other session. An outgoing transformation registered for the protocol is applied exactly once to each message and an incoming one exactly once on reception.",
["histories","configurations","schedules"],"all target sets over all live session sets",
"Tests use two nodes, where all targets coincide.",
[SV,SCt,SB],[("target resolution","tentacle/src/service.rs handle_message / filter_broadcast"),("before_send and before_receive functions","tentacle/src/service.rs, tentacle/src/substream.rs")],None,["payloads received at every node"],HK)
p("T05","At most one session per remote identity, and only with the dialed peer",
"With identities enabled a service never has two open sessions with the same remote public key, whoever dialed and however connections cross: another one is dropped and reported as a repeated connection naming the existing session. A dial whose address names a peer identity opens a session only if the remote proves that identity and otherwise reports a mismatch.",
["schedules","histories"],"all crossings of dials in both directions between several nodes",
"Tests dial once or a few times in sequence from one side.",
[SV,"tentacle/src/service/helper.rs"],[("lookup by remote public key on handshake success","tentacle/src/service.rs session_open"),("expected peer id comparison","tentacle/src/service.rs session_open, utils::extract_peer_id")],None,["open sessions per remote identity","dial and listen errors"],HK)
p("T06","Every dial and listen request gets exactly one outcome",
"Each accepted dial request that is not a duplicate of one still in progress ends in exactly one session opened or exactly one dial error for that address, and each listen request in exactly one listen-started event or listen error. After the outcome the same address can be dialed or listened on again.",
["histories","fault_sequences","configurations"],"all outcomes (refused, unreachable, unsupported address, timeout, handshake failure, identity mismatch, repeated, limit reached) in every order",
"Tests check the success case and one or two failures once each, never a retry after each kind of failure.",
[SV,"tentacle/src/transports","tentacle/src/service/helper.rs"],[("table of dials in progress","tentacle/src/service.rs dial_protocols, dial_inner"),("error reporting paths","tentacle/src/service.rs handle_session_event")],[("dial_protocols","dials in progress","tentacle/src/service.rs")],["service events and errors"],HK)
p("T07","Protocol negotiation opens exactly commonly supported versions",
"Opening a protocol succeeds exactly when both sides support it with a common version, and then both sides report the same version, the highest common one unless a custom selection is configured. When negotiation fails the error names the protocol, no handler is told it was opened, and all other protocols and sessions go on.",
["configurations","inputs","schedules"],"all sets of supported protocols and versions on both sides",
"Tests use identical version lists on both sides.",
["tentacle/src/protocol_select/mod.rs",SE],[("highest common version","tentacle/src/protocol_select/mod.rs select_version"),("select procedure","tentacle/src/protocol_select/mod.rs client_select, server_select")],None,["versions reported to handlers","negotiation errors"],"guarded re-export of the negotiation functions")
p("T08","The connection limit is enforced without losing existing sessions",
"The number of simultaneously open sessions never exceeds the configured maximum. A dial that fails because of it is reported as failed, existing sessions are never affected, and when sessions end new connections are accepted again.",
["histories","schedules","configurations"],"all connect and disconnect histories around the limit",
"No test configures a limit.",
[SV],[("limit test on dial, accept and handshake success","tentacle/src/service.rs reached_max_connection_limit")],None,["open sessions"],HK)
p("T09","Shutdown closes every session and listener and the service finishes",
"After a shutdown or close request the service stops accepting and dialing, reports closed for every open session and listener, and then finishes, whatever was in progress. Later control calls fail at once instead of blocking or being silently ignored. A service not set to run for ever finishes by itself once no session, listener or pending request is left, and not before.",
["schedules","crash_points","histories"],"shutdown requested at every point of every history",
"One test shuts down an idle pair of services.",
[SV,SCt,SE,"tentacle/src/service/future_task.rs"],[("shutdown flag and pre-shutdown state","tentacle/src/service.rs handle_service_task, poll_next"),("waiting for handlers","tentacle/src/service.rs wait_handle_poll")],None,["completion of the service","close events","results of control calls"],HK)
p("T10","Pending-data accounting is exact; only over-limit sessions are cut",
"The amount of pending outgoing data reported for a session returns to zero once everything sent to it has been written out, and is never larger than what the application submitted and is still unsent. A session is cut off as blocked only while its unsent data really exceeds the configured send buffer, and other sessions are unaffected.",
["histories","schedules","configurations"],"all send, open, close and stall histories",
"Tests only check that a blocked session is eventually reported.",
["tentacle/src/context.rs",SV,SB],[("increment on push, decrement on write","tentacle/src/context.rs, tentacle/src/substream.rs"),("blocked session cut-off","tentacle/src/service.rs distribute_to_session")],[("pending_data_size","unsent bytes of a session","tentacle/src/context.rs")],["session context accessor","blocked errors"],HK)
p("T11","Timers set by handlers fire repeatedly until removed, each with its token",
"A timer set for a protocol delivers its token to that protocol's handler after each period and to no other handler; after it is removed, its session ends, or the service stops, it stops firing. Timers with different tokens are independent.",
["histories","schedules"],"all set/remove histories interleaved with session ends",
"Tests set at most one or two timers and never remove one while it is firing.",
[PH,SV],[("interval per token","tentacle/src/protocol_handle_stream.rs set_notify, remove_notify")],None,["notify callbacks"],HK)
p("T12","Stalled and idle connections are dropped within the configured timeout",
"A connection that does not complete its encrypted handshake in time is dropped with a timeout error when it was dialed, and a session on which no protocol is open within the timeout is reported and closed. Other connections, new incoming connections and sessions that do have a protocol open are not affected by stalled ones.",
["fault_sequences","schedules","configurations"],"a peer stalling at every point of the connection setup",
"No test stalls a peer in the middle of the setup.",
[SE,"tentacle/src/service/helper.rs","tentacle/src/transports"],[("handshake timeout","tentacle/src/service/helper.rs HandshakeContext"),("timeout check task","tentacle/src/session.rs TimeoutCheck")],None,["timeout errors","close events"],HK)
p("T13","A failing protocol handler is reported and leads to orderly shutdown",
"If a protocol handler panics in one of its callbacks while the service is running, the service reports which protocol (and session) failed, closes all sessions in the usual orderly way and finishes. It never hangs, and it never silently keeps running without that handler.",
["fault_sequences","crash_points"],"a panic in every callback at every point",
"Tests let no handler fail.",
[PH,SV],[("drop guard in the handler loops","tentacle/src/protocol_handle_stream.rs Drop"),("error handling","tentacle/src/service.rs handle_session_event ProtocolHandleError")],None,["service errors","service completion"],HK)
p("T14","Background tasks run to completion and end with the service",
"Every task handed to a running service is run once; tasks do not block each other or the service, and a task that panics harms nobody else. All unfinished tasks are cancelled when the service finishes.",
["schedules","histories"],"all mixes of finishing, blocking and endless tasks with shutdown at every point",
"One test submits blocking tasks once.",
["tentacle/src/service/future_task.rs",SV],[("task table with cancel signals","tentacle/src/service/future_task.rs")],None,["task effects and drops"],HK)
p("T15","Callbacks see where the service listens",
"The listen addresses a callback finds in its context (service handle, service protocol or session protocol) are addresses at which the service listened together at some moment; once the news of a started or ended listener has settled they are exactly those at which it listens now, also in handlers of sessions opened before. A listener that failed is reported, announced as closed and no longer listed.",
["histories","schedules"],"all orders of listens, failing listeners, sessions, timers and messages",
"Tests listen once, before anything else happens, and no listener fails.",
[SV,PH,"tentacle/src/context.rs"],[("set of listeners and its copies in the contexts","tentacle/src/service.rs try_update_listens"),("update of handler contexts","tentacle/src/protocol_handle_stream.rs Update")],None,["listens() in every callback","listen events"],HK)
MA=["multiaddr/src/lib.rs","multiaddr/src/protocol.rs"]
p("M01","Addresses survive every conversion between text, bytes and components",
"Converting a valid address (names without a slash) to text and back, to bytes and back, or to its list of components and back gives an equal address. Appending, replacing and removing components acts on the component list exactly as on an ordinary list.",
["inputs"],"all addresses built from all supported components",
"Tests and the property test cover only a few fixed component sequences.",
MA,[("encoding and decoding of components","multiaddr/src/protocol.rs from_bytes, write_to_bytes, from_str_parts")],None,["round-trip results"])
p("M02","Malformed addresses are rejected and never panic",
"Any text or byte string is either rejected with an error or accepted as an address whose components can all be read back; accepting, rejecting and reading never panic. Accepted byte strings are exactly the concatenations of valid component encodings, with every number in its shortest form.",
["inputs"],"all byte strings and all texts",
"Tests reject about a dozen fixed texts.",
MA,[("validation on conversion from bytes","multiaddr/src/lib.rs TryFrom"),("checked splitting","multiaddr/src/protocol.rs")],None,["conversion results"])
p("P01","Peer identities and socket addresses convert faithfully",
"A peer identity is determined by the public key alone, differs for different keys, survives conversion to text, bytes and address components, and malformed identities are rejected. Conversions between socket addresses and network addresses are inverse to each other, and reachability excludes exactly the private, loopback, link- and site-local, unique-local, broadcast, documentation and unspecified ranges and IPv6 multicast of less than global scope.",
["inputs"],"all keys, identity byte strings and socket addresses",
"Tests check one key and a dozen addresses.",
["secio/src/peer_id.rs","tentacle/src/utils.rs"],[("hash of the public key","secio/src/peer_id.rs"),("address helpers","tentacle/src/utils.rs")],None,["conversion results"])
PP="protocols/ping/src/lib.rs"; PI="protocols/identify/src/lib.rs"; PD=["protocols/discovery/src/lib.rs","protocols/discovery/src/state.rs","protocols/discovery/src/addr.rs"]
p("A01","Ping asks every peer each round, tells right from wrong and late answers",
"With the ping protocol, at every interval each authenticated peer that owes no answer is sent a ping with a fresh number (rounds at least a second apart), and every ping received is answered once with its number and reported. The right answer is reported with the time it took and keeps the connection, a wrong or unasked one ends it, and a peer that owes its answer for the timeout is reported at each timeout check until it answers. Nothing a peer sends panics the protocol, and messages that are no pings or pongs are reported as unexpected.",
["histories","schedules","inputs"],"all sequences of answers, pings, malformed messages, delays and disconnections from any number of peers",
"The protocol crate has only an encoding round-trip test.",
[PP],[("per-session state of the outstanding ping","protocols/ping/src/lib.rs notify, received"),("decoding of messages","protocols/ping/src/lib.rs decode")],[("connected_session_ids","what each session owes","protocols/ping/src/lib.rs")],["events sent to the user","messages sent","disconnections"],HK)
p("A02","Identify reports each peer's identity once and flags silent or abusive peers",
"With the identify protocol, each side sends on opening at most ten of its listen addresses (only reachable ones if so configured), the peer's address as it saw it, and its identity text, and hands what the peer sent to its user, unreachable addresses removed. A second message, a malformed one, more than ten addresses, and silence for the timeout are each reported as misbehaviour, and no peer that has identified itself in time is reported for silence; after the user says disconnect, nothing more of that message is reported and the connection ends.",
["histories","inputs","configurations"],"all messages and delays of any number of peers and all answers of the user",
"The protocol crate has only an encoding round-trip test.",
[PI],[("one message per session","protocols/identify/src/lib.rs received, check_duplicate"),("timeout check","protocols/identify/src/lib.rs notify")],[("remote_infos","what each session has said","protocols/identify/src/lib.rs")],["calls to the user's callback","messages sent","disconnections"],HK)
p("A03","Discovery shares known addresses, announces new ones once, limits its peers",
"With the discovery protocol, the dialing side asks for addresses, a request is answered with distinct addresses from the user's store up to the limit, and all addresses a peer sends, and the listen address it tells of, reach the user. Listen addresses of connected peers are announced to other peers at most ten at a time and at most once to each, never to a peer known to have them. A second request, a second unasked answer, too many items or addresses, and malformed messages are reported as misbehaviour, and if the user then says disconnect the message is not used and the connection ends.",
["histories","inputs","configurations"],"all requests, answers, announcements and malformed messages from any number of peers, with every timing of the announcement rounds",
"The protocol crate has only an encoding round-trip test.",
PD,[("announcement rounds","protocols/discovery/src/lib.rs notify, state.rs check_timer"),("requests and answers","protocols/discovery/src/state.rs, lib.rs received"),("limits","protocols/discovery/src/lib.rs verify_nodes_message")],[("sessions","what each session knows and is to be told","protocols/discovery/src/lib.rs")],["calls to the user's address manager","messages sent","disconnections"],HK)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
