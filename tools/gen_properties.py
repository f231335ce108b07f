import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
API=["SubChannel send() results","arguments seen by registered handlers"]
WIRE=["bytes on the simulated TCP connections in both directions"]
p("C01","A call delivers the request intact and returns exactly the handler's reply",
 "When nothing fails, every call completes: the handler registered for that service and endpoint receives exactly the endpoint, header and body the caller sent, and the caller receives exactly the message that handler returned. This holds for raw and JSON messages of any content and any size (empty parts, parts ending exactly on or next to a frame boundary, parts spanning many frames), for every configuration, and however the network segments, delays or throttles the bytes.",
 ["inputs","schedules","configurations"],"all request and reply contents and sizes x all TCP segmentations, delays and socket buffer sizes x all configurations x all task schedules",
 "The tests send a dozen fixed payloads over loopback with one schedule; the sizes at which a part ends within two bytes of the end of a frame, and segment boundaries inside frame headers, are not reached.",
 ["src/fragmentation.rs","src/defragmentation.rs","src/frames/mod.rs","src/frames/payloads.rs","src/messages/raw.rs","src/messages/json.rs","src/subchannel.rs","src/server.rs"],
 [("argument fragmentation across frames","src/fragmentation.rs ArgsFragmenter"),("reassembly","src/defragmentation.rs ArgsDefragmenter"),("frame codec and buffering","src/frames/mod.rs TFrameIdCodec"),("payload codecs","src/frames/payloads.rs")],observe=API)
p("C02","Concurrent multiplexed calls never cross replies and all finish",
 "Any number of calls in flight at once, from any mix of tasks, services, endpoints, clients and hosts and sharing connections in any way, each complete with the reply to their own request, whatever order the replies come back in. With no faults none of them is lost, duplicated or stuck: every call finishes once the handlers it depends on have finished, for every frame buffer size, server task limit, connection limit and message size.",
 ["schedules","configurations","histories"],"all interleavings of concurrent calls x buffer sizes x task limits x pool sizes x reply orders x message sizes",
 "The tests issue calls one at a time or a handful in one fixed interleaving on default settings; interleaved multi-frame requests beyond the task limit are never sent.",
 ["src/connection/mod.rs","src/server.rs","src/subchannel.rs","src/connection/pool.rs"],
 [("message ids and pending-call table","src/connection/mod.rs FramesDispatcher, Connection"),("per-connection concurrent request processing","src/server.rs Server::handle_connection"),("frame writer task","src/connection/mod.rs FrameSender")],
 state=[("pending calls","message id -> channel of the waiting call","src/connection/mod.rs FramesDispatcher.senders")],observe=API)
p("C03","A handler runs at most once per call and only with complete arguments",
 "Each call invokes a handler at most once, exactly once before the call can succeed, and never after the call was refused; the library never resends a request on its own. Whatever connection breaks, crashes, cancellations or partial deliveries occur, a handler is only ever invoked with the complete arguments of a request that was really sent, never with a truncated, merged, reordered or invented one.",
 ["fault_sequences","crash_points","schedules","histories"],"all points at which a connection, client or server can fail during a call x all schedules",
 "No test breaks a connection; at-most-once only matters when a request is cut off part way.",
 ["src/server.rs","src/subchannel.rs","src/defragmentation.rs","src/connection/mod.rs"],
 [("request reassembly before handler lookup","src/server.rs FrameHandler::handle_input"),("more-fragments flag handling","src/defragmentation.rs read_continuation")],observe=["handler invocation log against the log of issued calls"])
p("C04","A broken connection fails the calls using it: no hang, no made-up reply",
 "When a connection is closed, reset, times out or delivers bytes that cannot be understood, every call waiting on it returns an error promptly instead of waiting forever. A call never reports success with anything but the complete reply that the server produced for it, even when the connection breaks in the middle of a reply.",
 ["crash_points","fault_sequences","schedules"],"all byte positions and moments at which a connection can break, in either direction x all numbers of calls in flight x all schedules",
 "No test closes a connection while a call is in flight.",
 ["src/connection/mod.rs","src/defragmentation.rs","src/subchannel.rs"],
 [("end of the frame reader","src/connection/mod.rs FrameReceiver::run"),("closed reply channel","src/defragmentation.rs read_beginning, read_continuation"),("pending-call table","src/connection/mod.rs FramesDispatcher")],observe=API)
p("C05","Calls recover by themselves once the network and the server are healthy again",
 "After any sequence of refused or unanswered connection attempts, failed or silent handshakes, broken connections, partitions, and server crashes and restarts, the same client object becomes able to call that host again once the faults have stopped: within a bounded number of attempts and bounded time calls succeed again, without recreating anything. While faults last, each call attempt itself ends, in success or an error, within a bounded time after its connection is known to be broken.",
 ["fault_sequences","histories","schedules"],"all fault sequences followed by a healthy period",
 "The tests never restart a server or use a client after a failure.",
 ["src/connection/pool.rs","src/connection/mod.rs","src/subchannel.rs","src/server.rs"],
 [("broken-connection detection","src/connection/pool.rs has_broken, is_valid"),("connect and handshake","src/connection/pool.rs connect, verify"),("pool per host","src/connection/pool.rs ConnectionPools")],observe=API)
p("C06","A request that cannot be served fails alone",
 "A request that cannot be served, because the service or endpoint is unknown, the handler returns an error, or the message cannot be decoded, encoded or sent, ends with an error for its own caller within bounded time. All other calls, on the same connection as well as on others, complete as if it had not been sent, and the server keeps serving; a handler that panics costs at most the connection its request arrived on.",
 ["inputs","histories","schedules"],"all mixes of servable and unservable requests x all interleavings on shared connections",
 "The tests contain only happy paths.",
 ["src/server.rs","src/subchannel.rs","src/handler.rs","src/defragmentation.rs","src/fragmentation.rs"],
 [("error frames","src/server.rs FrameHandler::to_error_frame"),("service and endpoint lookup","src/server.rs get_subchannel, src/subchannel.rs get_handler"),("error frame handling at the caller","src/defragmentation.rs")],observe=API)
p("C07","A handler's outcome reaches its caller unchanged",
 "What a handler returns is what its caller gets: a success arrives as a success carrying that message; an error message arrives as the message-error outcome carrying that exact message, never as a success; a general or internal error arrives as an error that is neither a success nor a message error. This holds for sync and async handlers, raw and JSON messages, any message size, and in any mix of concurrent outcomes.",
 ["inputs","schedules"],"all outcomes x message formats x sizes x concurrent mixes",
 "No test lets a handler return an error.",
 ["src/handler.rs","src/subchannel.rs","src/server.rs","src/fragmentation.rs","src/defragmentation.rs"],
 [("outcome to response code","src/handler.rs convert"),("response code to outcome","src/subchannel.rs send"),("error replies","src/server.rs handle_input")],observe=API)
p("C08","No peer can take the server down or disturb other clients",
 "Whatever bytes a peer sends, in whatever pieces and order, with any stalls, half-closes, resets or floods, before or after the handshake, no server code panics and the server keeps accepting connections. Calls of other clients, on their own connections, keep completing correctly in bounded time, and no handler runs for something that was not a complete well-formed call request.",
 ["inputs","fault_sequences","schedules"],"all byte streams and stalling patterns of hostile or broken peers x all concurrent well-behaved clients",
 "The tests only connect well-behaved clients.",
 ["src/server.rs","src/frames/mod.rs","src/frames/payloads.rs","src/defragmentation.rs","src/connection/mod.rs"],
 [("frame decoding","src/frames/mod.rs TFrameIdCodec::decode"),("payload decoding","src/frames/payloads.rs"),("one task per connection","src/server.rs Server::run")],observe=["panic hook","other clients' calls","handler log"])
p("C09","No server can crash a client or make its calls lie",
 "Whatever bytes a server sends back, in the handshake or later, the client never panics, a call returns success only with a reply that really arrived complete and well-formed for that very call, and calls to other hosts are unaffected. Replies, errors or garbage carrying unknown, stale or foreign call identifiers never change the outcome of a call they do not belong to.",
 ["inputs","fault_sequences","schedules"],"all byte streams a server can send x all sets of calls in flight",
 "The tests only talk to the library's own server.",
 ["src/connection/mod.rs","src/connection/pool.rs","src/frames/mod.rs","src/frames/payloads.rs","src/defragmentation.rs","src/subchannel.rs"],
 [("reply dispatch by id","src/connection/mod.rs dispatch_following"),("reply decoding","src/defragmentation.rs ResponseDefragmenter"),("handshake verification","src/connection/pool.rs verify")],observe=API+["panic hook"])
p("C10","No call passes on a connection without a valid handshake",
 "A client sends no call on a connection before the server has answered its init request with an init response of protocol version 2, and an init answered with another version, another frame type, an error or garbage makes the connection unusable and the call fail with an error. A server runs no handler for a connection that did not first complete a valid version 2 init exchange, and answers a valid init request with exactly one init response carrying the same identifier.",
 ["inputs","schedules","fault_sequences"],"all first frames either side can send x all interleavings of handshake and calls",
 "Tests only perform the successful handshake.",
 ["src/server.rs","src/connection/pool.rs"],
 [("server side init check","src/server.rs handle_init_handshake, check_init_req"),("client side init check","src/connection/pool.rs verify")],observe=WIRE)
p("C11","Everything put on the wire is valid TChannel",
 "Every byte stream that clients and servers emit parses as TChannel frames: each frame at most 65535 bytes with a correct size field, valid type and well-formed payload, fragments of a message in order under one identifier with the more-fragments flag set on all but the last, and the reassembled parts equal to the message given. Each client uses a fresh identifier for each request of a connection, and each fully received request gets exactly one complete response or one error frame under its identifier, never more, whatever else is in flight.",
 ["inputs","schedules","histories"],"all workloads and schedules, observed at the sockets",
 "Tests check fragmentation for one message in isolation and never look at the bytes of a connection with interleaved messages.",
 ["src/frames/mod.rs","src/frames/payloads.rs","src/frames/headers.rs","src/fragmentation.rs","src/connection/mod.rs","src/server.rs"],
 [("frame encoding","src/frames/mod.rs TFrameIdCodec::encode"),("fragmentation","src/fragmentation.rs"),("id allocation","src/connection/mod.rs next_message_id"),("single writer per connection","src/connection/mod.rs FrameSender")],observe=WIRE)
p("C12","Any legal peer interoperates",
 "Client and server accept every legal encoding without checksums that another TChannel implementation may choose: any split of a message into fragments, including empty fragments of a part and fragments ending exactly at a part boundary, any interleaving of frames of different messages, any response order, any headers and tracing values, pings, and any init headers. Such peers' messages are delivered and answered exactly as if sent by this library.",
 ["inputs","schedules"],"all legal fragmentations, interleavings and optional fields",
 "Tests only run the library against itself, so only its own fragmentation choices are ever decoded.",
 ["src/defragmentation.rs","src/frames/payloads.rs","src/frames/mod.rs","src/server.rs","src/connection/pool.rs","src/connection/mod.rs"],
 [("reassembly","src/defragmentation.rs ArgsDefragmenter"),("payload decoding","src/frames/payloads.rs"),("ping","src/connection/pool.rs ping, src/server.rs")],observe=API+WIRE)
p("C13","Services and endpoints behave as one consistent registry",
 "Asking a channel for the same service always yields the same subchannel, however many tasks ask at once; of several registrations of one endpoint exactly one succeeds and stays until it is unregistered, the others get an error and change nothing. Every call reaches the handler that is registered for exactly its service and endpoint at that time, or fails with an error if none is, and (un)registering one endpoint never affects another.",
 ["schedules","histories"],"all concurrent histories of subchannel, register, unregister and call operations",
 "Tests register once before any traffic, from one task.",
 ["src/channel.rs","src/subchannel.rs","src/server.rs"],
 [("get-or-create under lock","src/channel.rs subchannel, create_subchannel"),("handler map","src/subchannel.rs register_handler, unregister, get_handler")],
 state=[("subchannels","service name -> subchannel","src/channel.rs TChannel.subchannels"),("handlers","endpoint -> handler","src/subchannel.rs SubChannel.handlers")],observe=API)
p("C14","Connections are pooled per host within the configured limits",
 "Calls go to the address they name over connections that are reused: without faults or expiry a channel opens at most the configured number of connections to a host however many calls run concurrently, and hosts never share connections. A connection past its configured lifetime is replaced within bounded time without disturbing calls in flight, and with connection testing enabled calls succeed against this library's server and dead pooled connections are replaced before use.",
 ["schedules","configurations","histories","fault_sequences"],"all concurrent call patterns x pool sizes x lifetimes x connection testing x time",
 "Tests use one connection, the default lifetime, no connection testing, and finish within a second.",
 ["src/connection/pool.rs","src/config.rs","src/server.rs"],
 [("pool per address","src/connection/pool.rs ConnectionPools::get, create_pool"),("ping validation","src/connection/pool.rs is_valid")],observe=WIRE+["connections accepted by each simulated host"])
p("C15","Server start and shutdown take effect and can be repeated",
 "Starting a running server reports an error and changes nothing; shutting down a stopped one is harmless; after shutdown or drop of the channel no new connection is accepted and the address becomes free; after a shutdown the server can be started again, also immediately and on the same address, and serves. A running server survives failing accepts, and other channels are never affected.",
 ["histories","schedules","fault_sequences"],"all sequences and timings of start, shutdown, drop and calls x accept failures",
 "Tests start and stop a server once each, mostly without a later restart.",
 ["src/channel.rs","src/server.rs"],
 [("server handle","src/channel.rs start_server, shutdown_server, Drop"),("accept loop","src/server.rs Server::run")],
 state=[("server handle","running accept loop, if any","src/channel.rs TChannel.server_handle")],observe=["start/shutdown results","listening sockets of the simulated host","calls"])
p("C16","Handlers run concurrently up to the limit and never concurrently with themselves",
 "Requests on one connection for different endpoints are handled concurrently up to the configured number of server tasks, never more, so that slow requests fewer than that number do not delay requests for other endpoints on the connection. A single handler instance is never entered again before its previous invocation ended or was cancelled, and requests waiting for their turn are all served eventually.",
 ["schedules","configurations","histories"],"all mixes of slow and fast handlers x task limits x arrival orders",
 "No test has a slow handler or a non-default task limit.",
 ["src/server.rs","src/subchannel.rs"],
 [("bounded concurrent processing","src/server.rs Server::handle_connection"),("handler mutex","src/subchannel.rs handle")],observe=["handler enter/exit log in virtual time"])
p("C17","An abandoned call harms nobody",
 "A caller may drop a call at any moment, before, during or after sending its request or while its reply is arriving. All other calls on the same connection, earlier, concurrent or later, still complete with their own replies in bounded time, and the abandoned call's late reply is never given to another call.",
 ["schedules","histories","crash_points"],"all cancellation points of all calls x message sizes x buffer sizes",
 "No test drops a call.",
 ["src/subchannel.rs","src/connection/mod.rs","src/connection/pool.rs","src/server.rs"],
 [("reply dispatch to a gone receiver","src/connection/mod.rs dispatch_following"),("connection check-out","src/subchannel.rs connect"),("unfinished requests on the server","src/server.rs handle_input")],observe=API)
p("C18","Closed connections and dropped channels release their tasks and sockets",
 "When a peer closes or resets a connection and the requests in progress on it have ended, the tasks and the socket that served it are released; when a channel is dropped and its calls have ended, its client connections are closed and its listening socket is freed. After any history of connects, calls, failures and drops no task or socket remains once nothing refers to it.",
 ["histories","fault_sequences","schedules"],"all histories of connecting, calling, failing and dropping",
 "Tests end with their process and never count tasks or sockets.",
 ["src/connection/mod.rs","src/server.rs","src/channel.rs","src/connection/pool.rs"],
 [("task termination on channel close","src/connection/mod.rs FrameSender, FrameReceiver"),("connection task","src/server.rs Server::run, handle_connection"),("drop","src/channel.rs Drop")],observe=["live tasks and sockets of the simulated host"])
p("C19","Calls that are over leave nothing behind",
 "However many calls have succeeded, failed or been abandoned at any moment, and however many connections have come and gone, what client and server keep for them is released once they are over: the memory held, tasks and connections return to the same level and do not grow with the number of calls on a connection that stays open, not even when callers give up requests half sent or peers answer what cannot be understood. Once all channels are dropped and their calls have ended, no memory is held.",
 ["histories","schedules","fault_sequences"],"all histories of served, failed, abandoned and rejected calls repeated on open connections",
 "Tests make a few calls in a process that ends and never look at what is held afterwards.",
 ["src/connection/mod.rs","src/subchannel.rs","src/server.rs","src/connection/pool.rs"],
 [("pending ids","src/connection/mod.rs FramesDispatcher register, deregister; FrameOutput close, drop"),("unfinished requests","src/server.rs FrameHandler::read, src/connection/mod.rs FrameOutput::cancel"),("pools","src/connection/pool.rs ConnectionPools")],
 state=[("pending ids","message id -> queue of its frames","src/connection/mod.rs FramesDispatcher.senders")],observe=["memory, tasks and sockets held by the library's tasks"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); print(x['id'],len(x['title']),x['title'])
