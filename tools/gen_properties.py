#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                     observe_at=observe, hook_needed=None)))

CM=["codec/cmpp/%s.go"%x for x in("active","connect","delivery","header","report","submit","terminate")]
SG=["codec/sgip/%s.go"%x for x in("bind","deliver","header","report","submit","unbind")]
SM=["codec/smgp/%s.go"%x for x in("active","deliver","exit","header","login","report","submit")]
SV=["msc_server/server/"+x for x in("on_traffic.go","on_open.go","on_close.go","on_tick.go","server.go","session.go")]
LOGIN=["msc_server/server/"+x for x in("cmpp_connect.go","sgip_bind.go","smgp_login.go")]
SUBMIT=["msc_server/server/"+x for x in("cmpp_submit.go","sgip_submit.go","smgp_submit.go")]

p("C01","Decoders never fault on any received bytes",
 "Decoding any CMPP, SGIP or SMGP message body, for every byte string of every length and content and for every protocol version, ends by returning normally: it never reads outside the bytes it was given, never dereferences a missing value and never panics. A body too short for the fields it announces is reported as an error instead of being read past its end.",
 ["inputs"],"every message type and version, every frame body of every length and content",
 "The suite decodes only frames its own encoders produced; truncated or inconsistent frames from a peer are never sampled, and the input space is unbounded.",
 CM+SG+SM+["utils/utils.go","utils/tlv.go","codec/packer.go"],
 [("message decoders","Decode methods of codec/cmpp, codec/sgip, codec/smgp"),("TLV reader","utils.Read / utils.ReadObject")],
 ["return value of every decode","process crash of the server or client that decodes"])
p("C02","Every encoded frame is exactly as long as it declares",
 "For every message that the constructors or response builders can produce, the encoded frame has exactly the number of bytes its length field declares, encoding never writes or slices outside the frame, and a count or length field inside the frame equals the size of the repeated or variable part it announces.",
 ["inputs"],"every recipient list, text, option set, account configuration and protocol version accepted by the constructors",
 "Tests encode a handful of literal messages; the lengths depend on recipient counts, text length, options and version and must agree for all of them.",
 CM+SG+SM,[("constructors and encoders","New*/ToResponse and Encode of every message type")],["bytes written to the connection"])
p("C03","Encoder and decoder of a message agree on the wire layout",
 "For each message type and protocol version, every field sits at the byte offset and width that the protocol specification gives it, and the decoder of the message reads each field from precisely the position and width where its encoder writes it.",
 ["inputs","configurations"],"every message type, every protocol version, every field value, every number of recipients and message length",
 "Round-trip tests compare a few fields of a few samples and never compare against the specification; a shifted field that both sides shift, or a field no test reads, passes.",
 CM+SG+SM,[("encoders","Encode methods"),("decoders","Decode methods")],["offset and width of each field in the frame"])
p("C04","A response answers its own request",
 "The response built for a received request carries that request's sequence number, the response command code paired with the request's command code, the same protocol version's layout, and (for a message response) exactly the identifier and result the caller supplied.",
 ["inputs"],"every request message, every sequence number, every result code",
 "Tests look at few responses; the pairing must hold for each message type with each sequence number.",
 CM+SG+SM,[("response builders","ToResponse methods")],["header of the response frame"])
p("C05","Every frame starts with its own command code and sequence number",
 "Every request frame that a constructor builds encodes, at the fixed header positions, the total length, the command code the protocol assigns to that message, and the sequence number it was given or drew from the generator; the parts of a multi-part message draw distinct sequence numbers.",
 ["inputs","configurations"],"every constructor, every argument, every protocol version",
 "Tests check a few literal headers.",
 CM+SG+SM,[("constructors","New* functions of the codec packages")],["first 12 (SGIP 20) bytes of each frame"])
p("C06","Long texts are split without losing or repeating any byte",
 "A text that does not fit one message is split into consecutive parts that together contain every byte of the content exactly once and in order, each part being no longer than one message allows and carrying a concatenation header with a shared reference, the true total and its own 1-based number; content that cannot be expressed in 255 parts is refused rather than numbered wrongly.",
 ["inputs"],"every content length and part size",
 "Tests split one poem; off-by-one boundaries depend on the length modulo the part size.",
 ["utils/utils.go"]+["codec/%s/submit.go"%x for x in("cmpp","sgip","smgp")],
 [("splitter","utils.ToTPUDHISlices, utils.MsgSlices"),("submit constructors","NewSubmit of cmpp, sgip, smgp")],["payload of each produced part"])
p("C07","Per-message options override the account defaults field by field",
 "When the caller supplies a per-message option, the built message carries the supplied value, and when it does not, the message carries the account's configured default; no option alters a field other than its own.",
 ["inputs","configurations"],"every option and combination, every account configuration",
 "Tests pass a few options; precedence must hold for each field independently.",
 ["codec/options_mt.go"]+["codec/%s/submit.go"%x for x in("cmpp","sgip","smgp")],
 [("option application","setOptions / SetOptions and the Mt* option constructors")],["fields of the built submit message"])
p("C08","Generated identifiers never repeat or collide by construction",
 "Each identifier generator advances its state atomically, composes datacentre, worker, time and counter into disjoint bit ranges wide enough for each part, wraps its counter inside its own range, and starts the counter over only when the time has moved on (for the millisecond generator: forward only, even when the clock is set back); the inverse function recovers exactly the parts that were composed.",
 ["schedules","inputs"],"every interleaving of callers, every worker/datacentre setting, every counter value",
 "Tests draw a few thousand values on one goroutine or two; exclusion and field overlap must hold for all.",
 ["utils/snowflake/snowflake.go","utils/snowflake32/snowflake32.go","utils/cycle_sequence.go","utils/bcd_sequence.go","codec/sgip/sequence.go"],
 [("generators","NextVal methods"),("inverse","Parse functions")],["returned identifiers"],
 [("timestamp/sequence","last time unit and counter of a generator","utils/snowflake/snowflake.go")])
p("C09","TLV lists survive encoding and decoding",
 "Writing a TLV emits type, length and value in that order with the length equal to the number of value bytes, reading takes exactly that many bytes back, the announced list length equals the bytes the list writes, and removing entries never skips or keeps a wrong entry or accesses outside the list.",
 ["inputs"],"every list of TLVs, every value length up to the 16-bit limit, every position of the removed entry",
 "Tests add and remove a few entries.",
 ["utils/tlv.go"],[("TLV codec","ReadObject, WriteObject, TlvList")],["bytes written / entries read"])
p("C10","Showing a received message never faults",
 "For every message that decoding accepts, whatever bytes it came from, producing its log fields, its text form, any of its accessors and the response to it ends by returning normally; so does the text form of every command, status, version or result code, including values the protocol does not define.",
 ["inputs"],"every byte string the decoder accepts, every code value",
 "Tests print well-formed messages only; the logging of odd but decodable messages runs on the network loop, where a fault ends the server.",
 ["codec/cmpp","codec/sgip","codec/smgp","utils/utils.go"],[("rendering","Log, String, OpLog and accessor methods"),("decoders","Decode methods")],["a panic on the network loop"])

p("C11","Handling any message or input ends",
 "Decoding, encoding, showing and handling any message, splitting any text, walking any TLV list, sending and choosing a session always come to an end: no received bytes, option, list content or configuration makes a loop run for ever or a function call itself without end.",
 ["inputs","configurations","histories"],"every loop and call cycle reachable from the message types, the server's event handlers and the client's entry points",
 "A test that samples inputs does not meet the one value (a zero length, a count of 255, an empty remainder) for which a loop stops making progress.",
 ["codec/","utils/","msc_server/server/","msc_client/"],[("loops","every loop of the reachable functions"),("calls","the call graph of the workspace")],["progress of every loop"])
p("C12","Building a message never faults",
 "Making any message of the three protocols (login, submission, delivery, report, heartbeat, logout, and a response or report to another message) from any account, text, telephone numbers, identifiers and options ends by returning normally: no length, character, empty list or option value makes it fault; the same holds for every per-message option.",
 ["inputs"],"every text, number list, account and option",
 "Tests build a handful of well-formed messages; the limits at which a text is cut or an identifier is sliced are met by few inputs.",
 ["codec/cmpp","codec/sgip","codec/smgp","codec/options_mt.go","utils/"],[("constructors","New… functions and ToResponse/ToDeliveryReport methods"),("options","Mt… option functions")],["a panic while a message is made"])
p("S01","Nothing but a login is processed before a session is logged in",
 "On the server, a message submission, its response, a report or any other business request is acted upon only on a connection whose login has completed; on any other connection such a request is not processed and, when it is one the server handles, the connection is closed. A login request is accepted only on a connection that is still waiting for its first login.",
 ["histories","inputs","schedules"],"every order of frames on a connection, every protocol",
 "No test starts the server; the guard must stand before every handler on every path.",
 SV+LOGIN+SUBMIT,[("gate","loginCheck/sessionCheck calls in each handler"),("handlers","package handlers listed by CmppHandlers, SgipHandlers, SmgpHandlers")],["frames sent and state changes before login"],
 [("session state","connect / login / closing","msc_server/server/session.go")])
p("S02","Login succeeds only with valid credentials within the client's limits",
 "A session reaches the logged-in state only after the stored account was found, the credentials and version in the login request were checked against that account with a success result, and the account's connection limit admitted it; in every other case the peer of a readable login gets a response with a failure code and the connection is closed (an unreadable login just closes it).",
 ["inputs","histories","configurations"],"every login frame, every account store content, every current number of connections",
 "No test logs in to the server; each early-exit path must refuse.",
 LOGIN+["codec/cmpp/connect.go","codec/sgip/bind.go","codec/smgp/login.go"],
 [("login handlers","handleCmppConnect, handleSgipBind, handleSmgpLogin"),("credential checks","Check methods"),("state change","completeLogin")],["login response status, session state"])
p("S03","Connection limits are enforced without a race",
 "The server never holds more sessions than its configured capacity, and no account ever holds more logged-in or pending sessions than its configured maximum, because counting and reserving a place form one indivisible step; a connection beyond the limit is closed without being registered.",
 ["schedules","configurations"],"every interleaving of simultaneous connects, logins and closes",
 "Needs simultaneous connections; nothing in the suite opens one.",
 SV+LOGIN,[("capacity","CreateSession"),("per-client limit","admitClient")],["number of live sessions"],
 [("session registry","map of live sessions and their count","msc_server/server/server.go")])
p("S04","The server's frame splitting consumes exactly the announced bytes",
 "However the byte stream is cut into reads, the server handles each complete frame exactly once and in order, with exactly the number of bytes the frame announced, leaves an incomplete frame unread until the rest arrives, and closes the connection on a frame whose announced length is below the header size or above the allowed maximum.",
 ["inputs","schedules"],"every segmentation of every byte stream",
 "Needs a real connection and all segmentations of the stream; no test drives the event loop.",
 ["msc_server/server/on_traffic.go","codec/packer.go"],[("frame loop","Server.OnTraffic, DecodeAndCheckHeader")],["calls to peek/discard and frames dispatched"])
p("S05","Every request frame is answered exactly once, or the connection closes",
 "For each well-formed submission, link test or termination received on a logged-in session the server sends exactly one response with that request's sequence number and paired command code, or closes the connection; a frame whose body cannot be decoded closes the connection and is not answered.",
 ["inputs","histories","fault_sequences"],"every request frame of the three protocols on every path through its handler",
 "No test runs the handlers; the guarantee is about every path.",
 SV+SUBMIT+["msc_server/server/chain_cmpp_handler.go","msc_server/server/chain_sgip_handler.go","msc_server/server/chain_smgp_handler.go","msc_server/server/cmpp_active.go","msc_server/server/smgp_active.go","msc_server/server/cmpp_terminate.go","msc_server/server/sgip_unbind.go","msc_server/server/smgp_exit.go"],
 [("dispatch","ExecuteChain"),("handlers","handle* functions")],["responses written per request"])
p("S06","Submissions over the account's rate are refused, not processed",
 "Every submission consults the session's rate limiter exactly once before anything is done with it; when the limiter refuses, the submission is answered with the protocol's throttling code and is neither stored, counted as delivered nor reported on.",
 ["inputs","histories","configurations"],"every submission, every limiter state",
 "Rate behaviour needs live sessions; no test submits to the server.",
 SUBMIT+["msc_server/server/on_traffic.go","msc_server/server/session.go"],[("flow control","submitFlowControl")],["response code of a refused submission"])
p("S07","Window slots are always given back",
 "Every slot of a session's processing window that a task takes is released on every way out of that task, including a crash of the task body, and is never released without having been taken or taken twice; work beyond the window waits.",
 ["schedules","fault_sequences"],"every path and failure inside a task",
 "A leaked slot shows only after the window's size of failures; no test runs these tasks.",
 ["msc_server/server/"+x for x in("cmpp_submit.go","sgip_submit.go","smgp_submit.go","cmpp_active.go","smgp_active.go","cmpp_connect.go","sgip_bind.go","smgp_login.go","cmpp_terminate.go","sgip_unbind.go","smgp_exit.go","on_tick.go","session.go")],
 [("window","the buffered channel of the session")],["occupied slots after a task ended"])
p("S08","The event loop never waits",
 "Code that runs on the network event loop never sleeps, waits for a window slot, a channel, a timer or a rate token, and never performs database or blocking network input/output of its own; such work is handed to a worker pool or a timer (waiting for a free worker in that bounded pool is the intended back-pressure and is not counted).",
 ["schedules"],"every path reachable from the event-loop callbacks",
 "A stall shows only under load; no test runs the event loop.",
 SV+["msc_server/server/"],[("callbacks","OnOpen, OnTraffic, OnClose and AsyncWrite completion callbacks")],["latency of unrelated connections on the loop"])
p("S09","A status report follows only an accepted submission and names it",
 "The server produces a delivery report for a submission only after it answered that submission with success, only when the submitter asked for one, and the report carries the message identifier that the response gave and the submitter's own recipient and sender numbers.",
 ["inputs","histories"],"every submission and every result code",
 "No test drives a submission through the server.",
 SUBMIT+["codec/cmpp/submit.go","codec/smgp/deliver.go"],[("report producers","mockSendCmppReport, mockSendSmgpReport")],["report frames sent after a response"])
p("S10","Dead or idle connections are detected and closed",
 "Each tick the server closes every session idle longer than the configured limit and every session with too many unanswered link tests, sends link tests only on logged-in idle sessions, raises the unanswered count only when a test was sent, and resets it when an answer arrives.",
 ["histories","schedules","configurations"],"every session age, every pattern of unanswered tests",
 "Needs minutes of idle time on live connections.",
 ["msc_server/server/on_tick.go","msc_server/server/session.go","msc_server/server/cmpp_active_resp.go","msc_server/server/smgp_active_resp.go"],
 [("housekeeping","OnTick, closeCheck, activeTest, activeTestNoneResponseCheck")],["closes and link tests per tick"])
p("S11","A closed connection gives back everything it held",
 "When a connection that held a session closes, the session leaves the registry, the count of live sessions drops by exactly one and its worker pool is released; a connection that never got a session changes none of these.",
 ["histories","fault_sequences"],"every way a connection can end",
 "No test opens or closes a connection.",
 ["msc_server/server/on_close.go","msc_server/server/on_open.go","msc_server/server/session.go"],[("close","OnClose and the session's resource release")],["registry and counters after close"],
 [("live count","number of registered sessions","msc_server/server/server.go")])
p("S12","Buffers lent by the network layer are not kept",
 "A frame's bytes are lent by the network layer only until the handler returns: no decoded message, started task, session or package variable keeps a reference into the lent buffer or into memory that a later frame overwrites.",
 ["schedules","inputs"],"every frame and every later reuse of the receive buffer",
 "Corruption appears only when the buffer is reused while a worker still runs.",
 ["msc_server/server/on_traffic.go"]+CM+SG+SM,[("lent buffer","Peek in the server's header decoder; decoders of the codec packages")],["content of a decoded message after the buffer is overwritten"])
p("S13","Shared state is only touched under its lock and locks cannot deadlock",
 "Each piece of mutable state shared between goroutines is read and written only while its owning lock is held, every lock is released on all paths including panics that are recovered, no goroutine acquires a lock it already holds, and locks are always nested in one global order.",
 ["schedules"],"every interleaving of event loop, tick, worker, timer and caller goroutines",
 "The race detector sees only executed interleavings and no test runs the server or the client session concurrently.",
 SV+["msc_client/session/session.go","msc_client/session_factory.go","auth/client_store.go","auth/yaml_store.go","auth/mongo_store.go","event_manager/event_manage.go","utils/"],
 [("server lock","Server mutex"),("session lock","session mutex"),("client locks","Session and SessionFactory mutexes")],["lock held at each access"])
p("S14","No frame, connection event, tick or account makes the server fault",
 "Whatever bytes a client sends in whatever order, whenever connections open and close, whatever accounts and settings are (or are no longer) configured and however small or negative their limits, every event handler of the server, everything it hands to its workers and every callback of a write ends normally: nothing indexes out of range, uses something that is not there, divides by zero or asks for an impossible size.",
 ["inputs","histories","schedules","configurations"],"every handler, task, timer and write callback of the server for every protocol",
 "No test starts the server; a fault on the network loop or in a write callback ends the whole process, and needs an account removed meanwhile, a refused connection or an unusual setting.",
 SV+["msc_server/bootstrap.go","codec/","utils/utils.go"],[("handlers","OnTraffic, OnOpen, OnClose, OnTick, OnBoot, OnShutdown"),("session","resources made at login"),("start-up","generators and account store")],["a panic in the server process"])

p("K01","A client session exists only after a confirmed login",
 "The client reports a usable session only after the gateway's login response arrived, belonged to the request's protocol and announced success; on every failure the connection is closed and no session is returned, and no receiver is started.",
 ["inputs","fault_sequences","configurations"],"every reply or failure of the gateway during login",
 "No test talks to a gateway that refuses, truncates or breaks.",
 ["msc_client/session/session.go"],[("login","NewSession, login")],["returned session and state of the connection"])
p("K02","The client's receiver splits the stream exactly and survives bad frames",
 "The client reads each frame with exactly the announced number of bytes however the stream is segmented, stops and closes the session when the stream ends, breaks or announces an impossible length, and never hands on a partially read frame.",
 ["inputs","schedules","fault_sequences"],"every byte stream, every segmentation, every read error",
 "No test feeds the receiver.",
 ["msc_client/session/session.go"],[("receiver","startReceiver and the login reads")],["frames dispatched, session closed"])
p("K03","A response is matched to the submission it answers",
 "The pending result of a submission is registered before its frame is sent, under exactly the key by which the response handler looks it up, is removed again when the send fails, and a status report is matched under exactly the identifier format under which the response recorded it; an unknown response changes nothing.",
 ["schedules","inputs","histories"],"every interleaving of sender and receiver, every sequence number and message identifier",
 "The race between the send and the response needs a fast gateway; tests have none.",
 ["msc_client/session/on_traffic_cmpp.go","msc_client/session/on_traffic_sgip.go","msc_client/session/on_traffic_smgp.go","msc_client/session/send_sms.go"],
 [("senders","sendByCmpp, sendBySgip, sendBySmgp"),("receivers","onTrafficCmpp, onTrafficSgip, onTrafficSmgp")],["result seen by a query"],
 [("pending results","maps from sequence / message id to result","msc_client/session/send_sms.go")])
p("K04","The client answers every request of the gateway",
 "Each delivery, link test and termination (SGIP: termination) the gateway sends on the connection the client opened is answered exactly once, with the success response made from that request, carrying its sequence number and the paired command; if the response cannot be written, and after an answered termination, the session closes; a request that cannot be decoded is not answered and closes the session; nothing else the gateway sends is answered.",
 ["inputs"],"every frame a gateway can send",
 "No test feeds gateway frames to the client.",
 ["msc_client/session/on_traffic_cmpp.go","msc_client/session/on_traffic_sgip.go","msc_client/session/on_traffic_smgp.go"],[("receivers","onTrafficCmpp, onTrafficSgip, onTrafficSmgp")],["frames written by the client per received frame"])
p("K05","Choosing a session always ends and never yields an unusable one",
 "Asking for a session for any phone number returns in bounded time, either with a logged-in, healthy session of the carrier the number belongs to or with nothing; a caller that gets nothing is told so instead of failing.",
 ["inputs","configurations","histories"],"every phone number, every set of configured carriers, every state of their sessions",
 "Depends on configuration and on session failures that no test produces.",
 ["msc_client/session_factory.go","msc_client/api.go"],[("selection","SelectSession, PeekSession"),("senders","Send, SendN")],["returned session / query id"])
p("K06","Pending results are handed over exactly once and never leak",
 "The periodic cleaner removes an entry of the result caches exactly when it was sent longer ago than the configured limit (or is an empty list); the results of a removed query entry are handed to the persistence handler exactly once, complete and as copies nobody else changes, and those of a kept entry never; a query returns copies of all results filed under its id without removing them; a message to several numbers is filed, for all of them, under the id returned to the caller.",
 ["histories","schedules"],"every age and completion state of the entries",
 "Needs entries older than minutes.",
 ["msc_client/session_factory.go","msc_client/api.go"],[("cleaners","cleanQueryCacheMap, cleanRequestIdCacheMap, cleanMsgIdCacheMap"),("query","Query")],["entries after a cleaning round"])
p("K07","Closing a client session is safe and happens once",
 "A client session can be closed by any number of goroutines at any time: the connection is closed exactly once, no later use faults, and a closed session is never selected again and is replaced up to the configured number.",
 ["schedules","histories"],"every interleaving of closers and users",
 "Needs concurrent failures.",
 ["msc_client/session/session.go","msc_client/session_factory.go"],[("close","Session.Close, HealthCheck"),("replacement","lruSort / newConnect")],["connection state"])

p("K08","No reply, input, registry content or setting makes the client fault",
 "Whatever the gateway answers or reports, whatever text, number or query id the user passes, whatever is or is not in the client's registries, however the pool stands and whatever sizes and durations are configured, the client's functions, its receiver and its tickers never end in a panic: nothing indexes out of range, uses a session, connection, account or result that is not there, takes a stored value for something it is not, or asks for an impossible size or period.",
 ["inputs","histories","schedules","configurations"],"every exported function, receiver, ticker, hook and walk of the client, for every protocol",
 "Tests use a client with a working gateway and the shipped settings; a panic in the receiver or a ticker ends the user's process.",
 ["msc_client/api.go","msc_client/session_factory.go","msc_client/session/","msc_client/bootstrap.go","codec/","utils/utils.go"],[("api","Send, SendN, Query, SelectSession, CreateSessionFactory"),("receiver","goroutine started for a session"),("tickers","cache expiry and pool upkeep")],["a panic in the user's process"])

p("E01","Every registered shutdown hook runs",
 "A hook registered under a key is kept and run, once and with the arguments of the call, when the key's event is raised, and every hook registered for the shutdown is run when a termination signal arrives, before the process is told to end; a second registration under the same key is refused without disturbing the first, and concurrent registrations are all kept.",
 ["schedules","histories"],"every order and interleaving of registrations and calls",
 "Tests register one or two events sequentially.",
 ["event_manager/event_manage.go","msc_server/destory.go","msc_client/destory.go"],[("registry","Register, Call, FuzzyCall, GracefullyShutdown")],["hooks invoked"])
p("A01","Account lookups see a complete and current account table",
 "An account stored for a carrier and client id (for the file store, those in the file's name) is found under exactly that pair; a refresh replaces the whole table in one step, so that a lookup sees either the old or the new table and never a partial one; a refresh whose store cannot be read, or not to its end, keeps the previous table and does not end the process; an account file that cannot be decoded keeps that account's previous entry; the accounts are loaded before they are used and again on every tick of the reload timer; and every setting of the stored account reaches the code that asked for it.",
 ["schedules","configurations","fault_sequences"],"every store content, every interleaving of refresh and lookup, every read failure",
 "Tests read one static file once.",
 ["auth/client_store.go","auth/yaml_store.go","auth/mongo_store.go","auth/client.go","codec/auth_conf.go","msc_server/utils.go","msc_client/session_factory.go"],[("stores","Load and FindByCid of both stores"),("conversion","FindAuthConf")],["result of a lookup"])
p("X01","Secrets never reach the logs",
 "An account's shared secret, a login password or a database credential is never written to a log, in clear, inside a structure or as part of a hex dump of a frame.",
 ["inputs","configurations"],"every log call on every path",
 "Tests do not inspect log output.",
 ["codec/","msc_server/","msc_client/","auth/","database/"],[("log fields","Log methods and log calls")],["log output"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P), "properties")
