#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json
S="source/postcard-rpc/src/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=[S+f for f in files],mechanism=[dict(name=a,where=S+b) for a,b in mech],**kw))
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Every frame header decodes back to exactly what was encoded",
 "For every header (each key width, each sequence width, every key and sequence value) the encoders put a descriptor byte first, then the key bytes in order, then the sequence number in little-endian, and report exactly that many bytes. Decoding a frame that starts with those bytes gives back the same key (same width, same bytes), the same sequence number (same width, same value) and exactly the bytes that follow the header as the body.",
 ["inputs"],"all 12 width combinations x all key bytes x all sequence values x all bodies",
 "A test samples a few headers; one width combination or byte position in 2^96 values can be wrong unseen.",
 ["header.rs"],[("VarHeader::write_to_vec / write_to_slice","header.rs"),("VarHeader::take_from_slice","header.rs")])
p("C02","Malformed or truncated frames are rejected without panicking",
 "Decoding any byte string whatsoever either yields a header plus the remaining bytes or reports that it is not a valid frame: strings shorter than the header their first byte announces, an unknown format version, or the reserved sequence width are always reported as invalid. Encoding a header into a buffer that is too small reports failure, and neither operation can panic.",
 ["inputs"],"all byte strings of all lengths; all destination buffer lengths",
 "The set of hostile byte strings is unbounded; tests contain only well-formed frames.",
 ["header.rs"],[("VarHeader::take_from_slice","header.rs"),("VarHeader::write_to_slice","header.rs")])
p("C03","Shortened keys are one fixed function of the full key",
 "The 4-, 2- and 1-byte forms of a key are the same fixed byte-wise XOR folds of the 8-byte key wherever they are computed: shortening directly or through an intermediate width, at compile time for dispatch constants or at run time on a header, gives the same bytes, and every byte of the full key influences the result. A key is never widened, and a request to obtain a wider key from a narrower one fails.",
 ["inputs"],"all 2^64 keys and all width pairs",
 "Agreement of the folds on all keys cannot be sampled; client and server use different code paths for the same key.",
 ["lib.rs","header.rs"],[("Key1/Key2/Key4 from_key*","lib.rs"),("try_from_varkey / TryFrom<&VarKey>","lib.rs"),("VarKey::shrink_to","header.rs")])
p("C04","Keys and sequence numbers of different widths compare consistently",
 "Two keys of different widths are equal exactly when the wider one, shortened to the narrower width, has the same bytes; two sequence numbers are equal exactly when they have the same numeric value, whatever their widths. Changing the width of a sequence number keeps its low-order bits and yields exactly the requested width.",
 ["inputs"],"all pairs of keys of all width pairs; all pairs of sequence numbers; all resizes",
 "Mixed-width comparisons form 16+9 cases over huge value spaces; response matching depends on every one.",
 ["header.rs"],[("PartialEq for VarKey","header.rs"),("PartialEq for VarSeq, VarSeq::resize","header.rs")])
p("C05","Every endpoint request is answered exactly once, with its own sequence number",
 "For every incoming frame whose key selects an endpoint, the dispatcher produces exactly one outgoing message on every path, unless a spawned handler took over the duty to answer: the endpoint's response, or a protocol error. That message always carries the sequence number of the request, and a response carries the response key of the very endpoint that was requested.",
 ["inputs","programs"],"all frames, all handler flavours (blocking, async, spawn), all four key widths, transport failures included",
 "The dispatch code is generated by a macro for each user program; every flavour x key width x failure branch is separate code that the tests do not expand.",
 ["server/dispatch_macro.rs","server/mod.rs"],[("define_dispatch! @matcher/@ep_arm","server/dispatch_macro.rs"),("Sender::reply/error","server/mod.rs")])
p("C06","A bad request gets the matching error and never reaches a handler",
 "A frame whose key is unknown is answered with the unknown-key error, a frame whose key is narrower than the server needs with the key-too-small error, an endpoint request whose body cannot be decoded with the deserialization error, a failed spawn with the failed-to-spawn error and a user endpoint's response that could not be sent with the serialization error. In the first three cases no user handler runs.",
 ["inputs","programs"],"all frames x all handler flavours x all key widths",
 "Error branches multiply with flavours and key widths; tests exercise only the happy path of one width.",
 ["server/dispatch_macro.rs"],[("define_dispatch! error arms","server/dispatch_macro.rs")])
p("C07","Each message reaches exactly its own handler; topics are never answered",
 "A frame is handed to the handler registered for exactly that key, with the decoded body, the request header and the dispatcher's context, and to no other handler. Topic messages, decodable or not, never cause the dispatcher to send anything, and an undecodable topic message is dropped without running a handler or failing the server.",
 ["inputs","programs"],"all keys x all bodies x all key widths x all flavours",
 "A key that reaches the wrong arm at one key width only, or an unanswered topic turning into traffic, needs every arm of every width to be inspected.",
 ["server/dispatch_macro.rs"],[("define_dispatch! @matcher/@tp_arm","server/dispatch_macro.rs")])
p("C08","The server survives recoverable faults and stops on fatal ones",
 "The server loop returns only when receiving fails because the connection is closed (reported as a receive failure) or sending fails because the connection is closed or timed out (reported as a send failure), always handing back the original error. After an oversized frame, another receive error, an undecodable frame or any other send error it goes on to receive the next frame; each well-formed frame is dispatched exactly once with its own header and body.",
 ["fault_sequences","inputs"],"all sequences of receive results, frames and dispatch results",
 "Fault sequences on the transport are unbounded and the tests only close a channel.",
 ["server/mod.rs"],[("Server::run","server/mod.rs")])
p("C09","Outgoing server messages carry the right key, width and sequence number",
 "A response is sent under the endpoint's response key, a published message under the topic's key and an error under the reserved error key, each shortened to the configured key width, with exactly the sequence number and payload the caller passed, in one transport send whose result is returned to the caller.",
 ["inputs"],"all endpoints, topics, payloads, sequence numbers and configured widths",
 "The key is chosen by generic constants; a wrong constant or a skipped shortening shows only for particular widths.",
 ["server/mod.rs"],[("Sender::reply/reply_keyed/publish/error/log_str/log_fmt","server/mod.rs")])
p("C10","The chosen key width is collision free and handlers must be declared",
 "The key width a dispatcher uses is the smallest of 1, 2, 4 and 8 bytes at which no two distinct entries of the incoming endpoint and topic keys collide and no two of the outgoing ones, the error key included, collide; every pair of entries is compared, and identical full keys are rejected at compile time. A program that registers a handler for an endpoint or topic that is missing from the declared lists does not compile, and the dispatcher announces and matches with exactly that width.",
 ["programs","inputs"],"all endpoint and topic lists a program can declare",
 "The computation happens at compile time of user programs; the space of key lists is unbounded.",
 ["server/mod.rs","server/dispatch_macro.rs"],[("min_key_needed","server/mod.rs"),("sizer module of define_dispatch!","server/dispatch_macro.rs")])
p("C11","A client request resolves only with the answer to that very request",
 "Each request takes a fresh sequence number, is registered for both its response and the error reply before it is handed to the transport, and completes with the body received under exactly that sequence number and its own response key, with the protocol error received under that sequence number and the error key, or with an error: the connection is closed, the answer cannot be decoded, or the sequence number is still in use by another request (which is not reported as a closed connection). It is sent exactly once, with the endpoint's request key and the encoded request as body.",
 ["schedules","inputs"],"all interleavings of concurrent requests and incoming frames",
 "A lost wake-up or mix-up needs a specific interleaving of the receive worker and concurrent callers.",
 ["host_client/mod.rs","host_client/util.rs"],[("HostClient::send_resp/send_resp_raw","host_client/mod.rs"),("HostContext::process/process_did_wake","host_client/mod.rs"),("in_worker_inner","host_client/util.rs")])
p("C12","Closing the connection ends everything that depends on it",
 "When the client is closed or either direction of the transport fails, both workers stop, every pending request fails with a closed error instead of waiting forever, every subscription ends, and later requests and subscription attempts are refused. No subscription that is registered while the connection is going down survives it. No ordinary operation closes the connection while nothing is wrong with it.",
 ["schedules","fault_sequences"],"all points at which the transport can fail relative to concurrent requests and subscriptions",
 "The races between the workers' shutdown and callers are not reproducible in a unit test.",
 ["host_client/util.rs","host_client/mod.rs"],[("in_worker/out_worker/Stopper","host_client/util.rs"),("subscribe_*: stopped flag","host_client/mod.rs"),("HostClient::close","host_client/mod.rs")])
p("C13","Subscriptions deliver every matching message to whoever subscribed",
 "Every received message whose key matches a live broadcast subscription is offered to it once with its full header and body, and every one matching a live exclusive subscription is queued for it, subject only to the documented full-queue policy. There is at most one live list entry per topic key of each kind. A subscription disappears only because its receiver is gone, it was replaced, or the connection closed; an exclusive subscription is refused while a live one for the same key exists.",
 ["schedules","inputs","histories"],"all sequences of subscribe, unsubscribe and incoming messages",
 "Delivery must hold for all subscribe/drop/receive histories; tests run a few fixed ones.",
 ["host_client/util.rs","host_client/mod.rs"],[("in_worker_inner delivery loops","host_client/util.rs"),("subscribe_multi/exclusive","host_client/mod.rs")])
p("C14","The client adopts the key width the server uses",
 "Outgoing keys are shortened to the key width the client currently believes the server uses; whenever a response or an error reply arrives with a different key width, that width is adopted for later messages before the result is returned. Requests go out with the sequence-number width the client was configured with.",
 ["histories"],"all sequences of responses with all key widths, and all configured widths",
 "Tests use one fixed width; width changes mid-session are never sampled.",
 ["host_client/mod.rs"],[("HostClient::send_resp_raw / publish_raw","host_client/mod.rs"),("HostContext.kkind","host_client/mod.rs")])
p("C15","USB frames end with exactly one short packet",
 "Sending a frame over bulk USB transmits its bytes in order in packets of at most the packet size and terminates it with a packet shorter than that size: the natural last packet, or one explicit empty packet exactly when the length is a multiple of the packet size (the host-side sender also appends it while it does not know the packet size). This holds for the device-side senders and for the host-side sender, and a transport write error is reported to the caller (by the device as a closed connection).",
 ["inputs"],"all frame lengths, including exact multiples of the packet size",
 "Only lengths that are multiples of the packet size expose it, on hardware the tests do not have.",
 ["server/impls/embassy_usb_v0_3.rs","server/impls/embassy_usb_v0_4.rs","host_client/raw_nusb.rs"],[("send_all","server/impls/embassy_usb_v0_3.rs"),("send_all","server/impls/embassy_usb_v0_4.rs"),("NusbWireTx::send_inner","host_client/raw_nusb.rs")])
p("C16","An interrupted USB frame never merges with the next one",
 "The device-side sender marks a frame as pending before its first packet and clears the mark only after the whole frame, including its terminator, was written; a frame started while the mark is set first sends an empty packet. Frames of concurrent senders never interleave, because a frame is built and sent while holding the sender's lock, and a write that does not finish within its time limit reports a timeout.",
 ["crash_points","schedules"],"all points at which a send can be cancelled, time out or fail, and all interleavings of senders",
 "Cancellation between two particular packets cannot be hit deliberately without the hardware.",
 ["server/impls/embassy_usb_v0_3.rs","server/impls/embassy_usb_v0_4.rs"],[("send_all pending_frame","server/impls/embassy_usb_v0_3.rs"),("send_all pending_frame","server/impls/embassy_usb_v0_4.rs")])
p("C17","Device USB receive yields whole frames or an error, never a fragment",
 "Receiving on the device concatenates packets in order until one shorter than the packet size arrives and returns exactly those bytes, for buffers that are a multiple of the packet size. A frame that leaves no room in the buffer is consumed to its end and reported as too large, and so is a packet the endpoint rejects as not fitting, so the next receive starts at the next frame; a disabled endpoint is reported as connection closed.",
 ["inputs","fault_sequences"],"all packet sequences and buffer sizes",
 "Packet boundaries and buffer sizes combine without bound; there is no USB device in the tests.",
 ["server/impls/embassy_usb_v0_3.rs","server/impls/embassy_usb_v0_4.rs"],[("EUsbWireRx::receive","server/impls/embassy_usb_v0_3.rs"),("EUsbWireRx::receive","server/impls/embassy_usb_v0_4.rs")])
p("C18","Serial framing neither drops, merges nor splits frames",
 "The serial sender writes exactly one zero-terminated COBS encoding per frame and reports a failed write. On the receiving side every chunk between two zero bytes that is valid COBS, fits the 1024-byte accumulator and decodes to at least 3 bytes is delivered exactly once, in order and unchanged, however the bytes are split into reads; nothing else is delivered (in particular no remainder of an oversized chunk), reception goes on after the next zero byte, frames already read survive a cancelled receive, and the end of the stream or a read error is reported as an error.",
 ["inputs","histories"],"all byte streams and all ways they are split into reads",
 "Read boundaries are chosen by the operating system; the tests contain no serial traffic.",
 ["accumulator.rs","host_client/serial.rs"],[("CobsAccumulator::feed_ref","accumulator.rs"),("SerialWireRx::recv_inner / SerialWireTx","host_client/serial.rs")])
p("C19","Schema discovery announces everything and detects loss",
 "Asked for its schemas, a server publishes every type, endpoint, outgoing and incoming topic of its device map once, each under its own direction, and then answers the request once with the number of entries of each list and the number of sends that failed. The client subscribes before it asks, makes every message it received part of the report (all types before the endpoints and topics that need them) and returns the report only when it received as many types, endpoints and topics of each direction as announced and no send failed; otherwise it reports an error.",
 ["inputs","fault_sequences"],"all device maps and all patterns of lost messages",
 "Loss patterns and device maps are unbounded; tests use one map and a lossless channel.",
 ["server/mod.rs","host_client/mod.rs"],[("Sender::send_all_schemas","server/mod.rs"),("HostClient::get_schema_report","host_client/mod.rs")])
p("C20","The unique type list contains every non-primitive type that is used",
 "For every data type, the compile-time list of unique types contains the type itself and every type nested in it at any depth, in structs, tuples, sequences, options, maps, newtypes and every kind of enum variant, leaving out only primitives, and the space reserved for it is always sufficient. Merging lists drops nothing but duplicates, where two types are duplicates only if their whole structure and all their names agree.",
 ["programs"],"all data types a program can define",
 "The space of nested types is unbounded, and the lists are computed at compile time of user programs.",
 ["uniques.rs"],[("unique_types_*_upper / type_chewer_*","uniques.rs"),("nty_eq and friends, merge_nty_lists","uniques.rs")])
p("C21","Log frames are well formed whatever is logged",
 "A device-side log call, with a fixed string or with formatted arguments of any size, sends one frame made of the logging topic's key at the requested width, the next value of the log counter as sequence number and the text prefixed by its length; formatted text that does not fit is cut off and a fixed string that does not fit is refused with an error. The length prefix always reads back as the length of the text that follows. It never panics and never writes outside the transmit buffer.",
 ["inputs"],"all strings, all format arguments, all buffer sizes",
 "The failure needs particular lengths relative to the buffer size; the tests never run this code.",
 ["server/impls/embassy_usb_v0_3.rs","server/impls/embassy_usb_v0_4.rs"],[("send_log_str/send_log_fmt/SliceWriter","server/impls/embassy_usb_v0_3.rs"),("send_log_str/send_log_fmt/SliceWriter","server/impls/embassy_usb_v0_4.rs")])
p("C22","Endpoint and topic keys are derived from their own path and types",
 "An endpoint declared with a path, request and response type has a request key derived from that path and the request type and a response key derived from the same path and the response type, a topic one derived from its path and message type, and the shorter key constants are the folds of the corresponding full key. The declared lists contain one entry per declaration, with its own path and keys, together with the entries of the standard protocol, whose keys and message layouts are the same in host and device builds.",
 ["programs"],"all declarations a program can make",
 "Swapping two arguments in the macro is invisible while client and server share it, and the tests never compare against independent derivations.",
 ["macros.rs","lib.rs","standard_icd.rs"],[("endpoint!/endpoints!/topic!/topics!","macros.rs"),("Endpoint/Topic default constants","lib.rs")])
p("C23","Schema reports resolve every announced key to the announced type",
 "When the client assembles a report, every endpoint and topic entry is attached to the type whose own key, computed with the announced path, equals the announced key, whatever order the types are looked at, both for the request and the response of an endpoint, and listed under its own direction; every primitive type a device leaves out of its announcement is known from the start. An entry whose key matches no announced or primitive type makes the report fail instead of being attached to another type or dropped.",
 ["inputs"],"all announced sets of types, endpoints and topics in all orders",
 "Mismatched or reordered announcements are not part of the tests.",
 ["host_client/mod.rs"],[("SchemaReport::add_type/add_endpoint/add_topic_*","host_client/mod.rs")])
p("C24","Host USB receive keeps requests in flight and recovers or reports every fault",
 "The host-side USB receiver returns the data of each completed transfer once and in completion order, refills its queue of read requests before waiting again, tries a bounded number of times in a row to recover from a stalled endpoint, and reports every other transfer error and an exhausted recovery as an error instead of returning bytes.",
 ["fault_sequences"],"all sequences of transfer completions and faults",
 "There is no USB device in the tests, so no completion or fault sequence is ever exercised.",
 ["host_client/raw_nusb.rs"],[("NusbWireRx::recv_inner / handle_recv_err","host_client/raw_nusb.rs")])
p("C25","End-to-end calls return what the remote handler returned",
 "For every endpoint, request value and handler, the value a caller receives equals the value the remote handler returned for the value the caller passed.",
 ["inputs","programs"],"all serde types and values",
 "The value space is unbounded.",
 ["host_client/mod.rs","server/dispatch_macro.rs"],[("send_resp","host_client/mod.rs"),("define_dispatch!","server/dispatch_macro.rs")])
p("C26","Every request eventually completes",
 "As long as the transport keeps delivering and the server keeps running, every request issued by a client eventually completes, however many are outstanding.",
 ["schedules"],"all fair schedules","Liveness over infinite schedules.",
 ["host_client/mod.rs","host_client/util.rs"],[("workers","host_client/util.rs")])
p("C27","A server transport sends exactly the given header and message, or nothing",
 "Sending a message through a server transport (both USB device transports and the in-process channel) puts one frame on the wire: exactly the header the caller gave, directly followed by the encoding of exactly the message the caller gave; a raw send puts exactly the caller's bytes. If header or message does not fit into the transmit buffer, nothing is sent, not even in part, and the caller gets an error that claims neither a closed connection nor a timeout. Success is reported only when the frame was handed to the medium.",
 ["inputs"],"all headers, message types and values, transmit buffer sizes",
 "The tests send a few small messages over in-process channels; the USB transports and full buffers are never exercised.",
 ["server/impls/embassy_usb_v0_3.rs","server/impls/embassy_usb_v0_4.rs","server/impls/test_channels.rs"],[("WireTx::send / send_raw","server/impls/embassy_usb_v0_4.rs"),("WireTx::send / send_raw","server/impls/test_channels.rs")])
p("C28","The in-process channel transport passes frames on unchanged and reports closing",
 "The channel transport delivers each frame unchanged, one per call, in both directions and on both the server's and the client's side. A frame larger than the server's receive buffer is reported as too large, so that the server carries on with the next one; a closed channel or a fired stopper is reported as a closed connection (an error on the client's side) by senders and receivers alike. Its log calls send one frame with the logging topic's key at the requested width, the next counter value and the text. A server built from settings uses exactly the given transmitter, receiver, buffer size and key width, and the stopper it returns stops both directions.",
 ["inputs","schedules"],"all frames, buffer sizes, closing and stopping times",
 "The tests exchange small frames that fit and close in one order.",
 ["server/impls/test_channels.rs","host_client/test_channels.rs"],[("ChannelWireTx / ChannelWireRx / dispatch_impl","server/impls/test_channels.rs"),("ChannelTx / ChannelRx","host_client/test_channels.rs")])
p("C29","USB links are set up with matching endpoints and packet sizes",
 "The host connects its queues to a bulk OUT and a bulk IN endpoint of the claimed interface, tells its sender a packet size that is not larger than that of the OUT endpoint in use, passes on the caller's sequence number width, error path and queue depth, and fails only if the interface cannot be opened or lacks such an endpoint. The device side makes both endpoints with the packet size its framing uses, starts with no frame pending, uses the caller's transmit buffer, and keeps its per-packet time limit within 1 to 60000 ms.",
 ["configurations"],"all interface descriptors (bounded number of endpoints), all configured values",
 "No test has a USB device or descriptor.",
 ["host_client/raw_nusb.rs","server/impls/embassy_usb_v0_3.rs","server/impls/embassy_usb_v0_4.rs"],[("try_from_nusb_and_interface","host_client/raw_nusb.rs"),("WireStorage::init*","server/impls/embassy_usb_v0_4.rs")])
p("C30","Connecting runs one worker per direction on exactly the link the caller named",
 "Every client constructor builds exactly one client over the link it was given or asked to open, with the caller's sequence number width, error path and queue depth, and that client's sending worker (holding the given transmitter) and receiving worker (holding the given receiver) are each started exactly once on the given spawner and not stopped. Unless configured otherwise the client does not wait for full subscriptions. The serial constructor opens the given port at the given speed, splits it into the two wires and starts with nothing buffered; the USB constructors connect to a listed device that the caller's filter accepts, at an interface of the vendor specific class or accepted by the caller's filter; the channel constructors link the given channels in the right direction. Constructors fail only if the port, device or interface cannot be found or opened. On the device, the spawn function hands the task to the given spawner and returns its answer.",
 ["configurations"],"all ports, filters, spawners and configured values, all outcomes of finding and opening",
 "Most constructors need hardware no test has; the others are tested with one configuration.",
 ["host_client/util.rs","host_client/serial.rs","host_client/raw_nusb.rs","host_client/test_channels.rs","test_utils.rs","server/impls/embassy_usb_v0_4.rs"],[("HostClient::new_with_wire*","host_client/util.rs"),("try_new_serial_cobs","host_client/serial.rs"),("try_new_raw_nusb*","host_client/raw_nusb.rs"),("WireSpawn::spawn","host_client/mod.rs")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
