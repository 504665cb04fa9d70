import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d["anchors"]["observe_at"]=list(obs)
    d["anchors"]["hook_needed"]=hook
    P.append(d)
L="device/src/lock.rs"; HS="hislip/src/server/session/synchronous.rs"; HA="hislip/src/server/session/asynchronous.rs"; HM="hislip/src/server/mod.rs"; HG="hislip/src/common/messages.rs"
VC="vxi11/src/server/vxi11/core_service.rs"; VM="vxi11/src/server/vxi11/mod.rs"; VA="vxi11/src/server/vxi11/abort_service.rs"; VI="vxi11/src/server/vxi11/intr_client.rs"
RM="vxi11/src/common/onc_rpc/mod.rs"; RR="vxi11/src/common/onc_rpc/record.rs"; RX="vxi11/src/common/onc_rpc/xdr.rs"; PS="vxi11/src/server/portmapper.rs"; PC="vxi11/src/client/portmapper.rs"; BX="vxi11/src/common/xdr/basic.rs"
SPIN="instrumented replacement of the spin mutex under --cfg lxi_verif, so that a scheduler controls every critical section"
INMEM="entry point under --cfg lxi_verif that serves one HiSLIP connection over an in-memory stream"

p("C01","Device lock ownership is exclusive and truthfully reported",
 "At any time at most one client holds the exclusive lock of a device, all clients holding its shared lock acquired it with the same key, and the two coexist only if the exclusive holder is itself one of the sharers. An acquisition request succeeds exactly when it would keep this true (a client that already holds the requested lock is refused, and so is an exclusive owner that asks for a shared lock it could only get alone), and a refused request changes nothing. The lock state reported to anyone (exclusive yes/no, number of sharers, may this client use the device) always equals the actual set of holders.",
 ["schedules","histories"],"every history of acquire/release/drop operations by any number of clients with any keys, through local or remote handles, under every interleaving of their critical sections",
 "The unit tests run a handful of fixed two- or three-client sequences on one thread; they cannot cover all histories of mixed shared/exclusive requests nor any thread interleaving.",
 [L],[("state machine over (exclusive flag, shared key, shared count)","SharedLock, LockHandle::try_acquire_exclusive/try_acquire_shared/try_release in "+L),("RemoteLockHandle forwarding","RemoteLockHandle in "+L)],
 [("holders","which handle holds the exclusive/shared lock","LockHandle::has_exclusive/has_shared"),("shared record","lock word all handles see","SharedLock")],["return value of every lock operation","lock_info/can_lock after every operation"],SPIN)
p("C02","A locked-out client never gets access to the device",
 "Whenever a client is given access to the device under lock control, then at the moment access is given no other client holds an exclusive lock and, if anyone holds a shared lock, this client is one of the holders. Access is never given to two clients at once, and a client that is entitled to use a free device is never refused.",
 ["schedules","histories"],"every interleaving of device access attempts (immediate or waiting) with lock acquisitions, releases and disconnects of other clients",
 "Needs the lock to be taken exactly between the permission check and the grant of the device, or while a waiter is queued; the unit tests never run two clients concurrently.",
 [L],[("permission check before and after the device is obtained","LockHandle::async_lock, LockHandle::try_lock, RemoteLockHandle::async_lock/try_lock in "+L),("interruption of queued waiters by lock events","notify_acquired/notify_release in "+L)],
 [("device mutex","who is using the device","LockHandle::device")],["moment a guard is returned"],SPIN)
p("C03","A waiting client is woken as soon as it can proceed",
 "A client waiting for a lock or for access to the device never stays asleep once its request can be granted: whenever all activity has ceased, no pending request is grantable. Every release, expiry of interest, cancellation or disconnect of another client therefore leads to progress of whoever it unblocked, however the steps interleave.",
 ["schedules","histories"],"every interleaving of waiters with releases, drops, cancellations and acquisitions of other clients",
 "Lost wake-ups appear only when a release falls between a waiter's check and its registration, or when a cancelled waiter swallowed the wake-up; sequential tests cannot produce these windows.",
 [L],[("listen-then-recheck protocol and notification of all listeners","async_acquire*, async_lock, listen, notify_* in "+L)],
 [("listeners","registered one-shot wakers","SharedLock::event")],["state at quiescence"],SPIN)
p("C04","Ending a client, a request or a lock leaves exactly the right locks",
 "Releasing gives up everything the client holds and nothing else and reports what was released; a client that goes away (dropped handle, closed connection) gives up everything it held; a lock request that is cancelled or times out leaves the lock as if it had never been made. Other clients' locks are never affected.",
 ["histories","schedules","fault_sequences"],"every point in every history at which a release, a drop, a cancellation or a timeout of a request can happen, including in the middle of a waiting request",
 "Tests only drop one idle handle; dropping while waiting, while sharing, while holding both locks or while others wait is not reached.",
 [L],[("release on drop","impl Drop for LockHandle, force_release in "+L),("counting of sharers","try_release in "+L)],(),["release results, lock_info and later acquisitions"],SPIN)
p("C05","Lock and session bookkeeping does not grow with use",
 "Memory kept by the locking, status-notification and session bookkeeping is bounded by the number of live clients and pending requests: arbitrarily many device accesses, lock requests that are refused, cancelled or timed out, notifications, and sessions opened and closed leave nothing behind.",
 ["histories"],"every (arbitrarily long) history of operations with a bounded number of live clients and pending requests",
 "A leak of a few bytes per operation is invisible to short tests and is only fatal after millions of commands.",
 [L,"device/src/status.rs",HM,VM],[("pruning of finished listeners","SharedLock::listen in "+L),("removal of closed subscribers","Sender::send_status in device/src/status.rs"),("removal of stale sessions/links","InnerServer::gc_sessions in "+HM+", VxiInner::remove_link in "+VM)],
 [("listeners","one-shot senders of waiters","SharedLock::event"),("subscribers","mpsc senders","status::Sender::senders")],["live heap bytes before/after repeated histories"],None)
p("C06","Status events reach every live subscriber, in order, without blocking",
 "Every status value published is delivered to each subscriber that exists at that moment and has room, exactly once and in publication order; a subscriber that does not keep up loses only its own newest values and never delays or affects the publisher or other subscribers. A subscriber never receives a value published before it subscribed, and a closed subscriber disappears without affecting the others.",
 ["histories","schedules"],"every history of subscribe, publish, receive and unsubscribe operations by any number of parties, in every interleaving",
 "The single unit test sends one value to two receivers; full queues, slow, late and closed receivers and concurrent publishers are not reached.",
 ["device/src/status.rs"],[("bounded per-subscriber queue with try_send and pruning","Sender::send_status/get_new_receiver in device/src/status.rs")],
 [("subscribers","bounded queues","Sender::senders")],["values obtained by each receiver"],SPIN)
p("C07","HiSLIP session set-up pairs channels correctly and safely",
 "Every accepted initialize yields a session identifier that no other live session has, the lower of the client's and the server's protocol version, and a session for the requested sub-address (the default one if empty); unknown or undecodable sub-addresses, sessions beyond the configured maximum, and any other first message are refused with a fatal error and the connection closed. An asynchronous channel attaches only to an existing live session and at most once per session, and data or triggers sent before it is attached are refused with a fatal error and never reach the device. When both channels of a session are closed its identifier, its place in the session limit and its locks are free again.",
 ["histories","inputs","schedules"],"every sequence of initialize/async-initialize/close operations of any number of clients with any sub-address, version, session identifier and limit, including identifier wrap-around",
 "All HiSLIP tests skip themselves here, so nothing of this is exercised; wrap-around needs 32768 sessions, double attach a misbehaving client.",
 [HM,"hislip/src/server/session/mod.rs"],[("session table and id allocation","InnerServer::create_session/new_session_id/get_session/gc_sessions in "+HM),("handshake state","SharedSession::is_initialized, SessionState in hislip/src/server/session/mod.rs")],
 [("session table","live sessions by id","InnerServer::sessions")],["reply messages, connection state"],INMEM)
p("C08","HiSLIP commands execute exactly once, complete and in order; replies are intact",
 "On each session the device executes exactly the commands the client completed, each once, byte for byte the concatenation of its data messages, in the order sent, and triggers in their place among them. Every non-empty response comes back complete and in order, in messages no larger than the client's announced maximum, all carrying the identifier of the message that ended the command, with only the last one marked as the end; responses are never mixed between commands or sessions, and a configured short identification answers the identification query without affecting anything else.",
 ["inputs","histories","schedules"],"every sequence of data/data-end/trigger messages with any payloads and identifiers, any maximum message size, any number of concurrent sessions",
 "No HiSLIP test runs; ordering, chunk boundaries and interleaving with the asynchronous channel have unboundedly many combinations.",
 [HS],[("reassembly buffer, execute under device guard, chunked reply","SyncSession::handle_session in "+HS),("message framing","Message::read_from/write_to in "+HG)],
 [("buffer","bytes of the unfinished command","SyncSession::handle_session")],["device calls and reply messages"],INMEM)
p("C09","HiSLIP device clear discards exactly the interrupted work and always completes",
 "After a client announces a device clear, the unfinished command and everything it sent on the synchronous channel before the clear-complete message is discarded without reaching the device, a response still being sent is cut short only at a message boundary, and the server acknowledges on both channels exactly once each, with the device told to clear if the client is entitled to use it. Commands sent after the acknowledgement behave as in a fresh session; a clear works even while the session waits for a locked device, and does not disturb locks or other sessions.",
 ["histories","schedules"],"every point of a session (idle, mid-command, waiting for a locked device, sending a response) at which a clear can arrive, and every order of the two channels",
 "No test sends a device clear; the interesting cases are races between two connections.",
 [HS,HA],[("clear event channel between the channels","SyncSession::clear_buffer/handle_session in "+HS+", AsyncDeviceClear arm in "+HA)],
 [("clear event","pending clear","SharedSession::clear")],["acknowledgements, device calls"],INMEM)
p("C10","HiSLIP lock requests and releases answer truthfully and take effect",
 "A HiSLIP lock request is answered exactly once: success if and only if the session then holds the requested lock (exclusive for an empty string, shared under the given string otherwise), failure only if it could not be granted until its timeout expired (or an error code if refused outright), and an immediate request never waits. A release reports which lock was given up, or an error if none was held; lock information reports the device's current exclusive flag and number of sharers. Commands of a session that is locked out wait and run once access is possible.",
 ["histories","schedules","inputs"],"every sequence of lock, release and lock-info requests with any lock strings and timeouts by any number of sessions, interleaved with commands and disconnects",
 "No HiSLIP test runs; timeouts racing with releases and locks ending with a connection are schedule dependent.",
 [HA,L],[("AsyncLock/AsyncLockInfo handling","AsyncSession::handle_session in "+HA)],(),["lock responses, device calls"],INMEM)
p("C11","HiSLIP channels never block each other beyond what locking requires",
 "A session waiting for a lock, for a locked or busy device, or for a slow client still answers status, lock-information and clear requests on its other channel as far as the device itself is reachable, and never stops any other session or the server's ability to accept sessions from proceeding. There is no combination of requests on the two channels that leaves requests unanswered for ever although every lock has been released and every client reads its replies.",
 ["schedules","histories"],"every interleaving of the processing of both channels of any number of sessions, with clients that stop reading",
 "Deadlocks need both channels to be in specific states at the same time; no test drives two channels concurrently.",
 [HA,HS,HM],[("lock order of session state, lock handle and device; guards not held across waits","AsyncSession/SyncSession::handle_session in "+HA+" and "+HS)],(),["state at quiescence, spin contention"],INMEM+"; "+SPIN)
p("C12","HiSLIP status queries and service requests are reported faithfully",
 "Every status query is answered once with the status byte the device reports at that time (with the message-available bit owned by the server). Each session is sent a service request carrying the published status when one arises, at most one until the client's next status query, and none is lost while the session has not been notified; further status events never disturb the session.",
 ["histories","schedules"],"every sequence of status events and queries on any number of sessions in any order, including bursts of events",
 "No test publishes a status event to a HiSLIP session.",
 [HA,"device/src/status.rs"],[("one service request per status query","srq_bit in AsyncSession::handle_session in "+HA)],(),["messages on the asynchronous channel"],INMEM)
p("C13","HiSLIP survives malformed, oversized, truncated and unexpected messages",
 "Whatever bytes a client sends, the server neither crashes nor executes anything that was not sent as a complete message: a bad header ends the connection with a fatal error, an unknown or misplaced message type or an over-long payload is answered with a non-fatal error and skipped as a whole so that the following message is interpreted correctly, and a connection cut in mid-message executes nothing of it. Other sessions are unaffected.",
 ["inputs","fault_sequences"],"every byte sequence on either channel, split and truncated anywhere",
 "The input space is all byte strings; no test sends a malformed HiSLIP message.",
 [HG,HS,HA,HM],[("header and length checks","Message::read_from in "+HG),("dispatch with default arms","handle_session in "+HS+", "+HA+", "+HM)],(),["error messages, device calls, panics"],INMEM)
p("C14","HiSLIP remote/local control drives the device as requested",
 "Each remote/local request is answered once and puts the device's remote state and local lockout into the state its code stands for, unknown codes are refused without effect, and a status query switches the device to remote only while remote is enabled for that session. The requests wait for access like any other use of the device.",
 ["histories","inputs"],"every sequence of remote/local control codes, status queries and locks on any number of sessions",
 "No test sends a remote/local request; the code-to-action table and the memory of the enable flag need sequences.",
 [HA],[("control code table, enable_remote","AsyncRemoteLocalControl arm in "+HA)],(),["set_remote/set_local_lockout calls"],INMEM)
p("C15","VXI-11 links live exactly from creation to destruction",
 "A link is created only for a known device, with an identifier no other live link has; if a lock was requested with it and cannot be had in time, no usable link results and an error is returned. A link works only on the connection that created it and only until it is destroyed or that connection ends; after that every use of it, including abort, reports an invalid link, its locks are released and it sends no more service requests. Creating, destroying or aborting links never waits for another client's lock.",
 ["histories","schedules","fault_sequences"],"every sequence of create, use, destroy and disconnect by any number of clients with any identifiers",
 "The Python tests create one link per connection and never reuse or destroy one out of order.",
 [VC,VM,VA],[("link tables","VxiInner::new_link/remove_link in "+VM+", VxiCoreSession::links in "+VC),("release on drop","impl Drop for Link in "+VM)],
 [("links","live links per session and globally","VxiCoreSession::links, VxiInner::links")],["RPC replies"],None)
p("C16","VXI-11 operations respect device locks and their timeouts",
 "An operation on a link reaches the device only if no other client's lock excludes it; otherwise it is answered with the locked error, at once without the wait flag and not before its lock timeout with it, and has no effect on the device. Lock and unlock answer truthfully (granted, locked by another, already/not held), a waiting request proceeds as soon as the lock is released, and a link's lock ends with unlock, destruction of the link or disconnect.",
 ["histories","schedules","inputs"],"every sequence of operations with any flags and timeouts on any number of links and connections",
 "The tests check one timeout of one second with two clients; the flag/timeout/ordering combinations and races are not covered.",
 [VC,L],[("lock_device! macro, DEVICE_LOCK/UNLOCK handling",VC)],(),["RPC replies and device calls"],None)
p("C17","VXI-11 writes and reads move bytes exactly once, in order",
 "Data written to a link accumulates until a write with the end flag, which executes exactly the accumulated bytes once; the accepted size is the number of bytes taken. Responses queue per link and reads return them byte for byte in order, at most the requested size and only up to and including the termination character if one is asked for, with the reason flags telling exactly which of size, termination character and end applied. Links never see each other's data, a failed operation changes no buffer, and a device clear empties both directions.",
 ["inputs","histories"],"every sequence of writes and reads with any data, sizes, termination characters and flags on any number of links",
 "The Python tests do a few query round trips; partial reads, termination characters absent from the data, size zero and mixed links are not covered.",
 [VC,VM],[("in_buf/out_buf handling","DEVICE_WRITE, DEVICE_READ, DEVICE_CLEAR arms in "+VC)],
 [("in_buf, out_buf","pending input and output of a link","Link in "+VM)],["RPC replies and device calls"],None)
p("C18","VXI-11 abort ends exactly the operation in progress on that link",
 "An abort on a live link makes the operation that is waiting on that link return the abort error promptly and without effect; it does not touch other links, and when nothing is waiting it has no effect on later operations. Aborts of unknown or dead links report an invalid link.",
 ["histories","schedules"],"every timing of an abort relative to the operations of all links",
 "No test calls abort; a stale or misdirected abort shows only in multi-step histories on two channels.",
 [VA,VC,VM],[("abort channel per link","VxiInner::links, Link::abort, lock_device! in "+VC)],(),["RPC replies"],None)
p("C19","VXI-11 status byte reports the device status and message availability",
 "Reading the status byte of a link returns the device's status with the message-available bit set if and only if that link has unread response data.",
 ["histories"],"every history of writes, reads, clears and status reads on any number of links, for every device status value",
 "The tests read the status only of an idle link.",
 [VC],[("MAV computation","DEVICE_READSTB arm in "+VC)],(),["RPC replies"],None)
p("C20","VXI-11 service requests go to those who asked, and only while they ask",
 "While a client has an interrupt channel and a link with service requests enabled, each status event leads to one interrupt call on that channel carrying that link's handle; links or clients that did not enable it, disabled it again, destroyed the link, closed the channel or disconnected get none. A second interrupt channel or closing none is reported as an error, and a dead interrupt channel disturbs nothing else.",
 ["histories","schedules","fault_sequences"],"every sequence of enable/disable, channel creation/destruction, status events and disconnects of any number of clients",
 "No test creates an interrupt channel.",
 [VC,VI,"device/src/status.rs"],[("per-link monitoring task","DEVICE_ENABLE_SRQ, CREATE_INTR_CHAN, DESTROY_INTR_CHAN arms in "+VC)],(),["calls arriving on the interrupt channel"],None)
p("C21","Every RPC call gets exactly one correct reply; bad input harms only its sender",
 "Each complete call record, however it is split into fragments and packets, gets exactly one reply with the same transaction identifier and the standard status (success, program/version/procedure unavailable with the supported range, RPC version mismatch, authentication rejected), in the order of the calls. Truncated, oversized or undecodable input is never executed and ends at most that connection: no reply is invented, the server does not crash and keeps serving other TCP and UDP clients.",
 ["inputs","fault_sequences"],"every byte sequence on a TCP connection with any fragmentation and truncation, and every datagram",
 "Tests decode a few well-formed records; fragmentation, truncation, hostile lengths and malformed datagrams form an unbounded input space.",
 [RM,RR,RX,BX],[("record marking","read_record/write_record in "+RR),("dispatch and reply status","RpcService::handle_message in "+RM)],(),["replies, connection state"],None)
p("C22","Port mapper answers from its table; clients accept only their own reply",
 "The port mapper returns the port registered for exactly the requested program, version and protocol, zero otherwise, and lists exactly its table. A client call returns the result of the reply that answers it: replies to other calls, late or duplicated, are ignored, and refusals and malformed replies surface as errors.",
 ["inputs","histories","fault_sequences"],"every table and query, and every order, duplication, loss and corruption of replies",
 "Tests make a few well-behaved calls to the system's mapper; stale and malformed replies never occur there.",
 [PS,PC,RM],[("lookup","StaticPortMap::call in "+PS),("reply matching","StreamRpcClient::call, UdpRpcClient::call in "+RM)],(),["return values of client calls"],None)
p("C23","Raw socket: each terminated line runs once, replies in order",
 "For every way the byte stream is split, the raw server executes exactly the terminated commands, each once, in order and without the terminator, and sends each response followed by the terminator, in order; an unterminated rest at disconnect is discarded. Commands of a locked-out client wait until access is possible.",
 ["inputs","schedules","fault_sequences"],"every byte stream, every split into reads, every truncation, any number of clients and lock states",
 "Tests send single whole lines; splits, empty lines, binary data and truncation are not covered.",
 ["raw/src/server/mod.rs"],[("read_until loop","Server::process_client in raw/src/server/mod.rs")],(),["device calls and bytes written"],None)
p("C24","Telnet: commands survive negotiation, editing and splitting; replies are escaped",
 "For every way the byte stream is split, the telnet server executes exactly the newline-terminated lines with telnet commands removed and erase-character/erase-line applied, with one optional carriage return before the newline dropped and nothing else, each once and in order; responses are sent escaped and followed by a line end. Supported options are negotiated without loops, an unterminated rest at disconnect is discarded and the session ends when the client disconnects.",
 ["inputs","schedules","fault_sequences"],"every byte stream including telnet commands, every split into reads, every truncation",
 "Tests send plain whole lines; negotiation, erase, escapes and disconnects are not covered.",
 ["telnet/src/server/mod.rs"],[("event loop over parsed telnet events","Server::process_client in telnet/src/server/mod.rs")],(),["device calls and bytes written"],None)
p("C25","Locks hold across all protocols sharing a device",
 "With several protocol servers sharing one device, a lock taken through one protocol excludes clients of every other protocol until it is released, times out or its owner disconnects, whichever order they act in: excluded commands wait or are refused, and then run exactly once.",
 ["histories","schedules"],"every history of lock, unlock, command and disconnect operations spread over the protocols",
 "Each test starts one server with one protocol.",
 [L,HS,VC,"raw/src/server/mod.rs","telnet/src/server/mod.rs"],[("one lock record and device shared by all servers","SharedLock passed to every server"),("access only under lock control","async_lock/try_lock calls in each server")],(),["device calls and replies"],INMEM)
p("C26","Servers keep serving: limits hold and a bad peer harms only itself",
 "A server serves at most its configured number of clients at once and serves waiting ones as soon as others leave; connections that are reset before or while being served, send garbage or stall never stop it from accepting and serving the others, over any of the protocols.",
 ["fault_sequences","histories","configurations"],"every sequence of connects, resets, garbage, stalls and disconnects, for any limit",
 "Tests use one well-behaved client per server.",
 ["raw/src/server/mod.rs","telnet/src/server/mod.rs",VC,VA,PS,HM],[("accept loop with back-pressure token per client","accept/serve loops"),("per-client task","task::spawn in each accept loop")],(),["service of probe clients"],None)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,(x['id'])
print(len(P))
