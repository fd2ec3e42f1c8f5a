import json
D="src/mqtt/transport/packet_decoder.rs"; E="src/mqtt/transport/packet_encoder.rs"; S="src/mqtt/transport/mqtt_bytes_stream.rs"
SUB="src/broker/messaging/subscriptions_repository.rs"; MS="src/broker/messaging/messaging_service.rs"; H="src/broker/client_packet_handler.rs"
L="src/mqtt/listener.rs"; SR="src/broker/session/session_repository.rs"; SE="src/broker/session/session_entity.rs"; A="src/broker/authentication.rs"; P="ratelmq-passwd/src/main.rs"; ST="src/settings/mod.rs"; AP="src/application.rs"
props=[]
def p(id,title,st,over,text,why,files,mech,state=[],observe=[]):
    props.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","A well-formed packet is decoded exactly and consumes exactly its own bytes",
 "Whenever the bytes arriving on a connection begin with a well-formed client packet (CONNECT including optional will, user name and password; PUBLISH; PUBACK; PUBREC; PUBREL; PUBCOMP; SUBSCRIBE; UNSUBSCRIBE; PINGREQ; DISCONNECT), with a remaining length encoded in one to four bytes, reading a packet returns that packet with every field equal to what the bytes say. It consumes exactly the bytes of that packet, so the next read starts at the first byte after it.",
 ["inputs"],"every byte sequence that starts with a well-formed packet, up to the 268435455-byte limit",
 "The tests decode about fifteen fixed byte strings, none with a will, none with a three- or four-byte remaining length and none followed by a second packet.",
 [D,S,"src/mqtt/packets/mod.rs"],[("read_packet and decode_*",D),("decode_remaining_length",D),("MqttBytesReadStream::get_*",S)],observe=["return value of read_packet","bytes left on the stream after it"])
p("C02","Malformed packets are refused with an error",
 "If the bytes on a connection do not begin with a well-formed client packet - a reserved or server-only packet type, wrong fixed-header flags, a remaining length longer than four bytes or that does not equal the size of the fields it must cover, an invalid QoS or will QoS, text that is not UTF-8, an empty filter list, or the stream ending early - reading a packet returns an error and never a packet.",
 ["inputs"],"every byte sequence that is not a well-formed packet prefix, including every truncation",
 "No test feeds a malformed packet at all.",[D,S],[("length accounting in decode_*",D),("validate_first_byte",D)],observe=["return value of read_packet"])
p("C03","No network input can crash, overflow or hang the packet reader",
 "For every byte sequence a peer can send, ended or cut anywhere, reading a packet terminates once the bytes it waits for have arrived or the stream has ended, and returns a value or an error: it never panics, never overflows or underflows an integer and never loops without consuming input.",
 ["inputs","fault_sequences"],"every byte sequence, every cut, every read buffer size and every size in which the network delivers it",
 "The tests only send valid short packets through one fresh 4096-byte buffer, so neither the unchecked subtractions nor the buffer-capacity corner are reached.",
 [D,S,"src/mqtt/packets/mod.rs"],[("arithmetic on remaining_length",D),("QoS::from_bits","src/mqtt/packets/mod.rs"),("MqttBytesReadStream::get_bytes / wait_for_data",S)],observe=["panic","non-termination"])
p("C04","Decoding does not depend on how the network fragments the bytes",
 "The values returned by the byte-stream reader (u8, u16, byte strings, UTF-8 strings) and by reading packets depend only on the sequence of bytes received, not on how they are split over reads nor on the read buffer's size or fill. Each read operation returns exactly the next bytes in order, big-endian for u16, and leaves all later bytes unread.",
 ["inputs","schedules"],"every byte sequence, every partition into network reads, every buffer size and offset",
 "Tests deliver one small packet in one segment to a fresh buffer, so buffer wrap-around and partial reads never happen.",
 [S],[("wait_for_data loop",S),("get_bytes chunk loop",S)],state=[dict(name="read_buffer",meaning="bytes received and not yet consumed",where=S)],observe=["get_u8/get_u16/get_bytes/get_string results"])
p("C05","Outgoing packets are encoded exactly as MQTT 3.1.1 prescribes",
 "For every CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK and PINGRESP packet the protocol can represent, writing it emits exactly the byte sequence MQTT 3.1.1 defines for it: fixed header with flags, minimal remaining length equal to the size of the rest, then the fields in order.",
 ["inputs"],"every representable server packet: all flags, ids, QoS, topics up to 65535 bytes and payloads up to the packet size limit",
 "The tests encode about ten fixed packets, all shorter than 128 bytes.",
 [E,S],[("write_*",E),("encode_remaining_length",E),("MqttBytesWriteStream::put_*",S)],observe=["bytes received by the peer"])
p("C06","A written packet reaches the socket completely, once and in order",
 "After writing a packet has succeeded, every byte of it has been handed to the socket, after all bytes of earlier packets, exactly once and with nothing left behind in the write buffer, whatever the packet and buffer sizes and however few bytes the socket accepts per write. Until then the bytes handed over are a prefix of the bytes to be sent.",
 ["inputs","schedules","fault_sequences"],"every packet sequence, every buffer size, every sequence of short writes by the socket",
 "Tests write one small packet to an idle loopback socket, which always takes everything at once.",
 [S,E],[("finish_packet",S),("write_buffer_if_too_small",S),("put_bytes chunk loop",S)],state=[dict(name="write_buffer",meaning="bytes encoded and not yet handed to the socket",where=S)],observe=["byte stream at the peer after write_packet returned"])
p("C07","Encoding followed by decoding gives back the same packet",
 "For every packet that both sides of the protocol can exchange (PUBLISH with any flags, topic, id and payload; PUBACK; PUBREC; PUBREL; PUBCOMP), the bytes emitted for it, followed by any other bytes, decode to an equal packet and leave exactly the other bytes unread.",
 ["inputs"],"every representable packet of these types and every continuation of the stream",
 "Encoder and decoder are tested separately on a handful of constants, never against each other.",
 [D,E,S],[("write_packet",E),("read_packet",D)],observe=["read_packet(write_packet(p)) == p"])
p("C08","A topic matches exactly the subscriptions MQTT wildcards say it matches",
 "Looking up a topic name (no wildcard levels) yields, for every stored (client, filter) subscription, that client exactly once if the filter matches the topic level by level ('+' stands for exactly one level, a final '#' for one or more remaining levels) and not at all otherwise; nothing else is returned.",
 ["inputs","histories"],"every set of subscriptions reachable by any sequence of operations, every topic and every filter",
 "The tests try about a dozen filter/topic pairs with one-letter levels.",
 [SUB],[("subscribed_clients",SUB)],state=[dict(name="root",meaning="trie of topic levels holding the subscribed client ids",where=SUB)],observe=["clients returned for a topic"])
p("C09","Subscribing and unsubscribing change exactly the named subscription",
 "Subscribing adds exactly the pair (client, filter) and reports success with QoS 0; repeating it changes nothing and does not cause double delivery. Unsubscribing removes exactly the named filters of that client, has no effect for filters it does not hold, and no subscription of another client or another filter is ever affected.",
 ["histories","inputs"],"every history of subscribe, unsubscribe and removal operations over arbitrary clients and filters",
 "Unsubscribe has no test, repeated subscription has no test, and no test checks that the rest of the state is unchanged.",
 [SUB],[("subscribe",SUB),("unsubscribe",SUB)],observe=["clients returned for a topic afterwards","return code"])
p("C10","A client's end removes all of its state and nobody else's",
 "When a client disconnects or its connection is lost, its session and every one of its subscriptions are gone afterwards, so no later message is routed to it, and the sessions and subscriptions of all other clients are exactly as before.",
 ["histories"],"every broker state reachable by any history, and every client",
 "One test removes a single client from a trie that only contains that client.",
 [MS,SUB,SR],[("disconnect / connection_lost",MS),("remove_client recursion",SUB)],observe=["session existence and count","routing results"])
p("C11","The session registry is an exact map and a new session starts clean",
 "At any time exactly one session is registered per client identifier, namely the one of the latest accepted connection that has not ended; existence, lookup and count queries agree with that. Registering a session for an identifier replaces the previous one completely, and the new session inherits no subscription from it.",
 ["histories"],"every history of connects, reconnects, disconnects and subscriptions of any clients",
 "Two tests query a one-element repository; replacement, deletion and counting are untested.",
 [SR,MS],[("InMemorySessionRepository",SR),("session_insert / session_exists / session_count",MS)],state=[dict(name="sessions",meaning="map from client id to session",where=SR)],observe=["answers to session queries"])
p("C12","Every messaging request is applied in order and answered exactly once",
 "The messaging service applies the requests in its queue one after another in arrival order and answers each exactly once, with the result that the broker state before that request determines; a requester that has stopped waiting changes neither the state nor the processing of later requests.",
 ["histories","schedules"],"every sequence of messaging requests and every pattern of requesters giving up",
 "The service loop has no test.",
 [MS],[("MessagingService::run",MS)],observe=["value received on each request's reply channel"])
p("C13","A message is routed to exactly the sessions with a matching subscription",
 "Resolving the recipients of a topic returns, for each stored subscription matching the topic whose client has a session, the outgoing queue of that client's current session exactly once, and no other queue; the broker state is not changed by it.",
 ["histories","inputs"],"every broker state and every topic",
 "Routing through the messaging service has no test.",
 [MS,SUB,SR],[("senders_to_publish",MS),("publish",MS)],observe=["which connections receive the message"])
p("C14","Each recipient gets the published message once, unaltered, at the granted QoS",
 "A PUBLISH accepted from a client is put exactly once into the queue of every resolved recipient and of no one else, with topic and payload unchanged, and as a plain QoS 0 delivery (no packet id, not duplicate, not retained) as granted in SUBACK. A recipient whose connection has gone does not prevent delivery to the others.",
 ["histories","fault_sequences"],"every PUBLISH, every recipient list and every subset of dead recipients",
 "The packet handler has no test.",
 [H],[("on_publish",H)],observe=["events in each connection's outgoing queue"])
p("C15","Each SUBSCRIBE, UNSUBSCRIBE and PINGREQ gets exactly its acknowledgement",
 "A client with a session gets for each SUBSCRIBE exactly one SUBACK with the same packet id and one return code per filter in the same order, for each UNSUBSCRIBE exactly one UNSUBACK with the same packet id, and for each PINGREQ one PINGRESP, sent only to that client. When an acknowledgement is sent, the requested change of subscriptions for that client has already taken effect, and only that change.",
 ["histories","inputs"],"every request of every client in every broker state",
 "The packet handler has no test.",
 [H],[("on_subscribe",H),("on_unsubscribe",H),("on_ping_req",H)],observe=["events in the client's outgoing queue","messaging requests issued"])
p("C16","A connection is accepted exactly when its credentials are good",
 "Every CONNECT is answered by exactly one CONNACK: accepted, with a session registered under the client's identifier for this very connection, if it carries no user name or its user name and password are verified; otherwise 'not authorized', followed by closing the connection, without creating, replacing or otherwise touching any session or subscription.",
 ["inputs","histories"],"every CONNECT with any combination of user name and password, in every broker state",
 "The packet handler has no test.",
 [H],[("on_connect",H)],observe=["CONNACK and Disconnect events","session registry"])
p("C17","Only the connection that holds a session can act for that client",
 "Packets arriving on a connection that was not accepted, has disconnected, or has been replaced by a newer connection with the same client identifier change no session and no subscription and are delivered to nobody. When such a connection ends, the session of the newer connection stays.",
 ["histories","schedules"],"every interleaving of connects, rejected connects, takeovers, disconnects and later packets",
 "No test drives more than one connection.",
 [H,MS],[("ownership test before dispatch",H)],observe=["messaging requests issued","events in all queues"])
p("C18","Authentication accepts exactly the users and passwords in the password file",
 "Loading a password file succeeds exactly if it is readable and every line is 'user:hash', and maps each user to the text after the first colon of its last line. A user name and password are then accepted exactly if the user is in the file, its hash is well-formed and the password verifies against it; every other case is an error, never a crash and never acceptance.",
 ["inputs","configurations"],"every file content, user name and password",
 "Authentication has no test.",
 [A],[("FileIdentityManager::new",A),("authenticate",A)],observe=["results of loading and of authenticate"])
p("C19","Connection input is reported faithfully and in order, its end once",
 "If the first packet of a connection is not a well-formed CONNECT, nothing at all is reported for that connection. Otherwise it is reported as a connect with its fields unchanged (an empty client id replaced by one generated for this connection alone), then every further packet in order under the same client id, and finally, when the input ends or turns malformed, the loss of the connection exactly once and last.",
 ["inputs","histories"],"every sequence of packets and malformed data on a connection",
 "The listener has no test.",
 [L],[("connection_read_loop",L)],observe=["client events emitted"])
p("C20","Queued packets are written in order until the connection is to be closed",
 "The writer of a connection takes events from its queue in order, writes each packet exactly once, and stops at the first disconnect event (or when the queue is closed), after which nothing more is written; a failed write does not reorder, duplicate or skip the packets that follow.",
 ["histories","fault_sequences"],"every sequence of queued events and write failures",
 "The listener has no test.",
 [L],[("connection_write_loop",L)],observe=["bytes on the wire"])
p("C21","No client can crash the tasks shared by all clients",
 "Whatever packets a client sends, in whatever order and whenever it drops its connection, the packet handler and the messaging service, which serve all clients, never panic and keep processing the events of the others.",
 ["histories","fault_sequences"],"every sequence of client events with any subset of connections already gone",
 "No test runs the handler, let alone with dead peers or odd CONNECT packets.",
 [H,MS,SUB],[("result handling of channel sends",H),("on_connect",H)],observe=["panic of handler or service"])
p("C22","Keep-alive expiry is exact",
 "A session with keep-alive 0 never expires; any other session is expired at a given instant exactly if at least one and a half times its keep-alive (in whole seconds, rounded down) has passed since its last activity.",
 ["inputs"],"every keep-alive value, every last activity and every instant",
 "There is no test for it, and it involves floating-point conversion.",
 [SE],[("is_keep_alive_expired",SE)],observe=["return value"])
p("C23","The password tool changes exactly the named user's entry",
 "For every password file consisting of 'user:hash' lines with at most one entry per user, setting a password leaves a file in which that user has exactly one entry with a hash of the new password, and deleting leaves none; every other line is unchanged, byte for byte and in order, whatever the user names, and deleting an unknown user changes nothing.",
 ["inputs","configurations"],"every such file, with and without final line break, and every user name without colon or line break, including names that are suffixes, prefixes, case variants or contain special characters",
 "The tool has no test.",
 [P],[("line pattern and replacement",P)],observe=["file content before and after"])
p("C24","What the password tool writes, the broker accepts",
 "After the tool has set a user's password in a file the broker can load, the broker loads the resulting file and accepts that user with exactly that password, while the decisions for all other users are unchanged; after the tool has deleted a user, the broker still loads the file and refuses that user.",
 ["inputs","histories"],"every loadable file with at most one entry per user, every sequence of tool invocations",
 "Tool and loader are never run together.",
 [P,A],[("build_entry and file update",P),("FileIdentityManager::new",A)],observe=["authenticate results on the tool's output"])
p("C25","Environment variables override the configuration file",
 "For every setting, the effective value is the one from the RATELMQ_ environment variable ('__' separating nested names) if it is present and otherwise the one from the configuration file; a required setting missing from both, or an unreadable file, is reported as an error.",
 ["configurations"],"every combination of file contents and environment",
 "The source says 'todo: tests for envs precedence'.",
 [ST],[("Settings::new",ST)],observe=["effective settings"])
p("C26","A slow or stuck subscriber does not stall other clients",
 "Other clients' packets keep being processed within bounded time even if one subscriber stops reading from its connection.",
 ["schedules","fault_sequences"],"every schedule and every pattern of clients not reading",
 "No test runs several clients.",
 [H,L],[("bounded outgoing queue awaited in on_publish",H)],observe=["progress of other clients"])
p("C27","Shutdown completes",
 "After the shutdown signal, all listeners, the packet handler and the messaging service stop and the process ends.",
 ["schedules"],"every state in which the signal can arrive",
 "No test runs the application.",
 [AP,H,L],[("broadcast channel and joins",AP)],observe=["process exit"])
p("C28","Every configured address is served, by one and the same broker",
 "Started with settings that can be loaded, whose password file is valid and whose addresses can all be bound, the application listens on every configured address and on no other, and all addresses belong to one broker: one packet handler receives what arrives on any of them, one messaging service (new, without sessions or subscriptions) answers it, and log-ins are decided by the configured password file alike everywhere. So clients connected through different addresses reach each other, and a client identifier has one session whatever address it connects to.",
 ["configurations","histories"],"every list of addresses (any number, as a list or a comma-separated text), every valid password file, every use of the addresses by clients",
 "No test starts the application, let alone with several addresses.",
 [AP,"src/lib.rs",L,H,ST],[("application::run",AP),("MqttListener::bind",L),("ClientPacketHandler::new",H)],state=[dict(name="tasks",meaning="the handler, the service and the listeners started",where=AP)],observe=["connections accepted per address","messages between clients of different addresses"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in props))
