#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/gen_properties.py). Not used by any check.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe,hook_needed=None,state=state or [])))

p("C01","Only a correct challenge response opens a session",
 "A connecting client is sent 8 hexadecimal digits, drawn afresh for every connection, and gets a session only if it answers with a newline-terminated callsign of at most 10 characters followed by the 16-byte MD5 of the upper-cased configured password and exactly those digits (ASCII letter case of the password is irrelevant on both sides). A well-formed answer with any other 16 bytes, including the answer that was right for another connection's challenge, gets exactly the bad-password notice (07 00000000 01000000 01) and is disconnected; an over-long, unterminated or incomplete greeting is disconnected too. A refused client never causes any traffic to be relayed and leaves the proxy as available as before.",
 ["inputs","histories"],"every password, challenge value, callsign, 16-byte answer, greeting length, segmentation and number of earlier attempts",
 "test_e2e connects once with one password and never sends a wrong, short or replayed answer; the quantifier is over all inputs and attempt histories.",
 ["src/proxy.c","src/proxy_client.c","src/rand.c","src/digest.c"],
 [("challenge, greeting parsing and comparison","proxy_worker_authorize in src/proxy.c"),("expected response","get_password_response in src/proxy.c"),("client side of the handshake","proxy_client_connect in src/proxy_client.c")],
 ["client TCP stream","UDP/TCP peers of the proxy"])
p("C02","Callsign policy: deny wins, allow is required, errors refuse",
 "A callsign may use the proxy iff it does not match the configured denied pattern (when one is set) and does match the configured allowed pattern (when one is set), both as unanchored, case-sensitive PCRE searches; if matching cannot be evaluated the callsign is refused. An authenticated client whose callsign is refused gets exactly the notice 07 00000000 01000000 02 and is disconnected without any relaying. A proxy whose configured pattern does not compile refuses to open, and after closing, changing the configuration and reopening only the patterns then configured are in force.",
 ["inputs","configurations","histories","fault_sequences"],"every pair of patterns, every callsign, every close/reconfigure/reopen history, and matcher failures",
 "test_regex tries about ten fixed pattern/subject pairs against the regex wrapper and never goes through the proxy's allow/deny combination or reconfiguration.",
 ["src/proxy.c","src/regex.c"],
 [("decision","proxy_authorize_callsign in src/proxy.c"),("pattern life cycle","proxy_open in src/proxy.c; regex_compile in src/regex.c"),("matching","regex_is_match in src/regex.c")],
 ["return value of the public authorization call","client TCP stream","result of opening the proxy"])
p("C03","Client UDP messages leave unaltered from the right socket",
 "Every UDP data (type 5) or UDP control (type 6) message of an established session is sent exactly once, unaltered and in the order given, to the IPv4 address in the message at port 5198 (data) or 5199 (control), from that same port on the external address of the client's slot. A payload of up to 4096 bytes makes one datagram, a larger one consecutive datagrams that concatenate to it, an empty one none. A datagram the network refuses affects neither the session nor later messages.",
 ["inputs","histories","fault_sequences"],"every sequence of messages, sizes, addresses, segmentations and send failures",
 "No existing test relays a single datagram.",
 ["src/proxy_conn.c","src/conn.c"],
 [("client-to-network relay","process_data_message / process_control_data_message in src/proxy_conn.c"),("datagram emission","conn_send_to in src/conn.c")],
 ["datagrams received by UDP peers"])
p("C04","Datagrams reach the client once, intact and attributed",
 "While a session is established, each datagram of 1 to 4087 bytes that reaches port 5198 or 5199 of the slot's external address is delivered to that client as exactly one message, of type 5 for port 5198 and type 6 for port 5199, carrying the sender's IPv4 address, the exact length and the exact payload, in arrival order per port. An empty datagram delivers nothing, a longer one at most a prefix, and neither stops later datagrams from being delivered.",
 ["inputs","histories","schedules"],"every sequence of datagrams, sizes, senders and ports, and every interleaving of the two ports",
 "No existing test sends a datagram to the proxy.",
 ["src/proxy_conn.c","src/conn.c"],
 [("network-to-client relay","forwarder_data / forwarder_control in src/proxy_conn.c"),("datagram reception","conn_recv_any in src/conn.c")],
 ["client TCP stream"])
p("C05","TCP relay: faithful byte streams and one clear life cycle",
 "A TCP_OPEN connects from the slot's external address to port 5200 of the given address and is answered by one TCP_STATUS, all zero iff the connection was made and sent before anything from that connection; afterwards the bytes of client TCP_DATA reach the remote host, and the remote's bytes reach the client as TCP_DATA, complete and in order. When either side closes, the other is told (the remote sees end of stream; the client gets TCP_CLOSE after all data), and TCP_DATA without a connection is answered by TCP_CLOSE. A failed, closed or replaced connection never affects the session or a connection opened later, even if the client closes and reopens without waiting.",
 ["inputs","histories","schedules"],"every sequence of open, data, close and remote actions, every segmentation, and every interleaving with the relaying threads",
 "No existing test opens a relayed TCP connection.",
 ["src/proxy_conn.c","src/conn.c"],
 [("open/data/close handling","process_tcp_open_message, process_tcp_data_message, process_tcp_close_message in src/proxy_conn.c"),("remote-to-client relay","forwarder_tcp in src/proxy_conn.c"),("connect/close","conn_connect, conn_close in src/conn.c")],
 ["client TCP stream","TCP peer on port 5200"])
p("C06","The stream to a client is always whole, well-formed messages",
 "Whatever the concurrency between data, control and TCP traffic, however slowly the client reads, and even when the operating system accepts only part of a write, the bytes sent to an established client are a sequence of complete messages (9-byte header, then exactly the announced payload) of types 2 to 6 that never interleave. No message is longer than 4096 bytes including its header, and nothing else is ever written to the client.",
 ["schedules","inputs","fault_sequences"],"every interleaving of the relaying threads, partial writes at any byte, and any client reading pace",
 "Tests never have two sources of traffic, never read from a session, and a single schedule on an idle machine shows no partial writes.",
 ["src/proxy_conn.c","src/conn.c"],
 [("serialised client writes","mutex_client_send in src/proxy_conn.c"),("partial write loop","conn_send in src/conn.c")],
 ["client TCP stream"])
p("C07","How a client's bytes are segmented never matters",
 "For a given sequence of bytes sent by a client, the challenge exchange, the relayed datagrams and TCP bytes, and the replies are the same no matter how the bytes are split into TCP segments, how reads are shortened, or how much is pipelined.",
 ["inputs","schedules"],"every client script and every split of its bytes",
 "Tests send the greeting in one way only and no message at all.",
 ["src/conn.c","src/proxy_conn.c","src/proxy.c"],
 [("exact-length receive","conn_recv in src/conn.c"),("greeting split over two reads","proxy_worker_authorize in src/proxy.c"),("message loop","proxy_conn_process in src/proxy_conn.c")],
 ["all peers of the proxy"])
p("C08","Capacity: exactly the configured slots, never lost or shared",
 "With n configured external addresses at most n client connections are served at once, each session on an external address no other current session uses; a further connection is closed at once without a challenge and without disturbing the others. Whatever sequence of logins, refusals, silent connections and disconnects happened before, as soon as they are gone n clients can be served again at the same time.",
 ["histories","schedules"],"every history of connects, refusals, silences, disconnects (orderly or reset) for every number of slots, and every interleaving of client threads",
 "test_e2e makes one connection and one surplus connection on one slot.",
 ["src/proxy.c","src/proxy_conn.c"],
 [("idle worker and slot pools","proxy_process, proxy_worker_func in src/proxy.c"),("slot claim","proxy_conn_accept / proxy_conn_finish in src/proxy_conn.c")],
 ["client TCP streams","source addresses of relayed datagrams"])
p("C09","Returning callsigns get their slot back, others the oldest idle",
 "A client whose callsign was the last to use one or more idle slots is given one of those slots (the same external address as before); any other client is given the slot that has been idle longest, never-used slots counting in configured order. This holds for every callsign, also when many callsigns were seen.",
 ["histories"],"every sequential history of sessions over any number of slots and callsigns",
 "Tests use one slot, on which the choice cannot be observed.",
 ["src/proxy.c","src/pearson.c","src/proxy_conn.c"],
 [("slot choice and callsign index","proxy_worker_func in src/proxy.c"),("bucket hash","pearson_get in src/pearson.c")],
 ["source addresses of relayed datagrams"])
p("C10","Sessions are isolated from each other and from their past",
 "Traffic of one session is never delivered to, or sent on behalf of, another session, whether the other is concurrent on another slot or later on the same slot. When a session ends its relayed TCP connection is closed and its external UDP ports stop receiving, so nothing sent to the slot before a session began is delivered to it.",
 ["histories","schedules","inputs"],"every interleaving of several sessions' traffic and every history of sessions over the slots",
 "Tests never have two sessions or two consecutive sessions.",
 ["src/proxy_conn.c","src/proxy.c"],
 [("session teardown","proxy_conn_finish in src/proxy_conn.c"),("per-slot sockets","proxy_conn_init in src/proxy_conn.c")],
 ["client TCP streams","all peers"])
p("C11","No client or network input harms the proxy or other clients",
 "Arbitrary bytes from clients (before or after login), arbitrary datagrams and remote TCP data, and abrupt disconnects at any point never make the proxy crash, hang or access memory it must not. At worst the offending session ends; other sessions keep relaying undisturbed, and new clients can log in afterwards.",
 ["inputs","histories"],"every byte sequence a client or remote host can send and every point at which it can disconnect",
 "Tests send only valid input.",
 ["src/proxy.c","src/proxy_conn.c","src/conn.c"],
 [("message dispatch and length handling","process_message and handlers in src/proxy_conn.c"),("greeting parsing","proxy_worker_authorize in src/proxy.c")],
 ["process status under AddressSanitizer/UBSan","other clients' streams"])
p("C12","Closing always completes, disconnects everyone, and allows reuse",
 "From any state (idle, clients still logging in, sessions active, a client or remote host that does not read) closing the proxy finishes promptly, after which every client is disconnected, no port stays bound and no thread stays behind. Shutting down makes the blocking accept call return and lets no new client in; dropping disconnects current clients while their slots become usable again; and a closed proxy can be opened and started again and then works as new.",
 ["histories","schedules"],"every state and interleaving in which shutdown, drop or close is called, and any number of open/close cycles",
 "test_e2e frees the proxy from one state only, with one authenticated client.",
 ["src/proxy.c","src/proxy_conn.c","src/worker.c","src/conn.c"],
 [("close/drop/shutdown","proxy_close, proxy_drop, proxy_shutdown in src/proxy.c"),("worker join","worker_join in src/worker.c"),("socket shutdown","conn_drop, conn_close, conn_shutdown in src/conn.c")],
 ["return of the call","client streams","descriptors and threads of the process"])
p("C13","Nothing leaks, whatever happened",
 "After any history of sessions, refusals, failed relayed connections, failed openings and log changes, an idle proxy holds the same number of descriptors, threads and memory blocks as when it became ready, and after it is freed it holds none.",
 ["histories","fault_sequences"],"every history of client behaviour, configuration failure, open/close cycle and log redirection",
 "Tests exit right after one session and check no resource.",
 ["src/conn.c","src/proxy.c","src/proxy_conn.c","src/conf.c","src/log.c","src/worker.c"],
 [("release paths","conn_close, conn_connect in src/conn.c; proxy_worker_func in src/proxy.c; conf_free in src/conf.c; log_select_medium in src/log.c")],
 ["ledger of sockets, files, threads, heap blocks, compiled patterns"])
p("C14","Configuration files mean what the documentation says",
 "Loading a configuration file yields, for every documented key, the value of its last well-formed occurrence with surrounding blanks removed (the comma-separated list split into its addresses), nothing for keys that are absent or empty, and the default port 8100; comments, blank lines, lines without '=' and unknown keys have no effect. Line length, line-ending style, key order and a missing final newline do not matter.",
 ["inputs"],"every configuration file built from documented keys, values, comments, blanks and unknown lines",
 "No existing test loads a configuration file.",
 ["src/conf.c","src/proxy.c"],
 [("line and pair parsing","conf_parse_line, conf_parse_pair, conf_readline in src/conf.c"),("loading","proxy_load_conf in src/proxy.c")],
 ["public configuration structure after loading"])
p("C15","A proxy without a usable configuration is never served",
 "A configuration that sets the password to 'notset', that gives a non-numeric or out-of-range number for Port or ConnectionTimeout, or that lists additional external addresses without a specific ExternalBindAddress is refused when loaded, and a missing or unreadable file is reported as such. A proxy with no password, a pattern that does not compile or an address that cannot be bound refuses to open or serve and never accepts a client; no file content makes loading crash.",
 ["inputs","configurations"],"every file content and every combination of settings",
 "No existing test loads a configuration or opens a misconfigured proxy.",
 ["src/conf.c","src/proxy.c","src/conn.c"],
 [("validation","conf_parse_pair in src/conf.c; proxy_load_conf, proxy_open in src/proxy.c")],
 ["return values of load and open","listening port"])
p("C16","Digests, hex and password responses match the specification",
 "The digest of any byte string is its MD5, however the input is supplied in pieces; 32-bit values convert to 8 lower-case hex digits and back without loss, hex input being accepted in either case; a digest converts to 32 upper-case hex digits, null-terminated. The password response for any challenge and password is the MD5 of the password with ASCII letters upper-cased followed by the challenge's 8 lower-case hex digits.",
 ["inputs"],"every byte string, length, split into pieces, 32-bit value, digest and password",
 "test_md5, test_digest and test_proxy compare a handful of constants.",
 ["src/md5.c","src/digest.c","src/proxy.c"],
 [("MD5","src/md5.c"),("hex conversion","src/digest.c"),("response","get_password_response in src/proxy.c")],
 ["function results"])
p("C17","Registration reports are well-formed and truthful",
 "With a registration name configured, every report is one HTTP POST to www.echolink.org:80 path /proxypost.jsp whose Content-Length equals the body, and whose body is name=<name>&comment=<comment, plus ' [used/total]' when there is more than one slot>&public=<Y iff the password is PUBLIC, else N>&status=<Ready|Busy|Off>&a=<public address>&d=<upper-case MD5 of name, public address and '#5A!zu'>&p=<port>&v=<version>, for any lengths of name, comment (possibly none) and address. Without a registration name the registrar is never contacted, and no registrar behaviour (refusing, failing, hanging up) affects clients.",
 ["configurations","inputs","fault_sequences"],"every name, comment, address, password, port and slot count, and every registrar response",
 "No existing test enables registration.",
 ["src/registration.c","src/proxy.c"],
 [("report composition and exchange","send_report in src/registration.c"),("static part and digest","registration_service_start in src/registration.c")],
 ["bytes received by the registrar"])
p("C18","The registered status follows the real occupancy",
 "With registration configured, a report is sent when the proxy starts (also when it is reopened), and once things settle after any history of logins, refusals and disconnects the last report shows the actual number of used slots and total slots, Busy iff all are used and Ready otherwise (a proxy that has been shut down offers none and reports Busy). It is repeated at least every ten minutes, and closing the proxy sends a final Off report after which nothing more is sent.",
 ["histories","schedules"],"every history of client arrivals, refusals and departures, open/close cycles, and interleavings of client threads with the reporting thread",
 "No existing test enables registration.",
 ["src/registration.c","src/proxy.c","src/worker.c"],
 [("update triggers","proxy_update_registration calls in src/proxy.c"),("queueing and final report","registration_service_update / registration_service_stop in src/registration.c"),("periodic wake","worker_func in src/worker.c")],
 ["sequence of reports received by the registrar"])
p("C19","A successful wake is always followed by work",
 "After every successful wake of a running worker its function runs at least once from then on, also if the wake comes while it is busy, starting, or just before it is joined; it never runs on two threads at once, and never without a wake since its last start unless a periodic wake is set. Waiting for idle returns success only when no signalled work is outstanding, joining returns only after the worker has finished, waking or waiting on a worker that is not running fails, and a joined worker can be started again.",
 ["schedules","histories"],"every interleaving of start, wake, wait and join from several threads with the worker's own thread, and every sequence of them",
 "Tests use a worker only as a helper and in one order.",
 ["src/worker.c","src/thread_posix.c","src/mutex_posix.c"],
 [("state machine","worker_func, worker_wake, worker_join, worker_wait_idle in src/worker.c")],
 ["runs of the work function and return values"])
p("C20","Locks exclude, shared holders coexist, waits wake",
 "An exclusive holder of a lock coexists with no other holder, any number of shared holders may coexist, and every acquisition eventually succeeds once the conflicting holders have released. A thread waiting on a condition variable is released by a wake-all (one waiter by a wake-one) issued while it waits, holds the lock again when the wait returns, and a timed wait without a wake returns 1 no earlier than its timeout.",
 ["schedules","histories"],"every interleaving of shared and exclusive lock operations, waits and wakes by several threads",
 "No existing test exercises locks or condition variables.",
 ["src/mutex_posix.c"],
 [("reader count and exclusive lock","mutex_lock, mutex_lock_shared, mutex_unlock_shared in src/mutex_posix.c"),("waits","condvar_wait, condvar_wait_time in src/mutex_posix.c")],
 ["holders counted by the threads themselves"])
p("C21","Log messages go once, to the selected medium, at the level",
 "A message is written iff its level is at or above the importance threshold, exactly once and with its text intact, to the medium selected at that time: the console, the end of the named file (whose earlier content is kept), syslog at the corresponding priority, or nowhere. Switching the medium in any order loses no later message and leaves nothing of the previous medium open; selecting a file that cannot be opened fails and keeps the current medium.",
 ["inputs","histories"],"every sequence of level changes, medium switches and messages of any length and level",
 "No existing test inspects log output.",
 ["src/log.c","src/proxy.c"],
 [("filtering and dispatch","log_vprintf in src/log.c; proxy_log in src/proxy.c"),("switching","log_select_medium in src/log.c")],
 ["console streams, log files, syslog calls, open descriptors"])
p("C22","The connection layer reads exactly, unblocks and names peers",
 "A fixed-length receive returns success only with exactly the requested bytes in order, and an error once the peer has closed; sends deliver all bytes in order or report an error. Closing or shutting down a connection from another thread ends a blocked receive or accept with an error, a receive timeout expires no earlier than set on any kind of connection, and operations on a connection that is not open, or of the wrong kind, fail without effect. An accepted connection whose peer vanishes without a word is detected by itself within half an hour. Port numbers print in decimal for all 65536 values and a peer's address prints as the address and port it really has.",
 ["inputs","schedules","histories"],"every payload, segmentation and length, every port, IPv4/IPv6 peer, and every moment at which another thread closes",
 "test_conn covers one close of a blocked UDP receive and one timeout.",
 ["src/conn.c"],
 [("receive/send loops","conn_recv, conn_recv_any, conn_send, conn_send_to in src/conn.c"),("close and shutdown","conn_close, conn_shutdown, conn_drop in src/conn.c"),("formatting","conn_port_to_str, conn_get_remote_addr in src/conn.c")],
 ["function results, peer sockets"])
p("C23","The daemon honours its options, signals and streams",
 "openelpd accepts exactly its documented options in any order and combination, reads the named configuration file, and exits with a non-zero status and a diagnostic, without serving, on an invalid option, a second file, two log mechanisms or a failing configuration. Started with its standard streams open, in foreground or detached, with any log setting, it serves clients whose streams carry nothing but the protocol, and SIGINT or SIGTERM makes it disconnect its clients, release its ports and exit.",
 ["configurations","inputs","histories"],"every command line, and for every log setting and run mode every client history before the signal",
 "Only --help, --version and one invalid option are run.",
 ["src/proxyd.c","src/log.c"],
 [("option parsing","parse_args in src/proxyd.c"),("detaching and log selection","main in src/proxyd.c"),("signals","graceful_shutdown in src/proxyd.c")],
 ["exit status, output, client streams, listening port"])
p("C24","Resource failures are reported, never crash",
 "If any single memory, thread, lock, socket or file operation fails while a proxy is initialised, configured, opened or started, the call returns a negative error (or goes on correctly without the resource), the process does not crash, and the proxy can still be freed without leaking. The same failures while clients are served cost at most the connection concerned, and the library goes on serving later clients (each slot, completely).",
 ["fault_sequences","histories"],"every single failure point in the initialise/configure/open/start/serve/close sequence",
 "Tests never inject a failure.",
 ["src/proxy.c","src/proxy_conn.c","src/worker.c","src/registration.c","src/conn.c","src/conf.c","src/thread_posix.c","src/mutex_posix.c"],
 [("error paths","*_init, *_open, *_start functions and their exit labels")],
 ["return values, process status, resource ledger"])
p("C25","The bundled client greets a proxy correctly and cleans up",
 "Connecting the bundled proxy client sends, after the server's complete challenge, exactly the callsign (if any), a newline and the right response for the password (PUBLIC when none is given), whatever the challenge and however transfers are cut; it then returns 0, stays connected, and has consumed nothing that follows the challenge. If the server is absent, ends early, a call fails or the client is disconnected meanwhile, connecting returns a negative error promptly with the connection closed, and the same handle can connect again. Disconnecting ends the connection, freeing releases everything, both any number of times.",
 ["inputs","histories","fault_sequences"],"every callsign, password, challenge, segmentation, server behaviour and failing call, over every history of init, connect, disconnect and free",
 "test_e2e connects two clients, both successfully.",
 ["src/proxy_client.c","src/conn.c","src/digest.c"],
 [("greeting and failure path","proxy_client_connect in src/proxy_client.c"),("life cycle","proxy_client_init, proxy_client_disconnect, proxy_client_free in src/proxy_client.c")],
 ["bytes at the server, function results, open descriptors and blocks"])
p("C26","Concurrent use is free of data races and lock inversions",
 "While one thread runs proxy_process and others call proxy_drop, proxy_update_registration, proxy_log, proxy_shutdown and then proxy_close, and while clients, remote hosts and the registrar act at any moment, no memory shared between threads is accessed by two threads without synchronisation (at least one access writing), no locks are acquired in conflicting orders or released wrongly, every call returns, and afterwards every slot can serve again. The same holds for a bundled client that another thread disconnects while it waits for the server.",
 ["schedules","histories","inputs"],"every interleaving of application threads, workers and the registration service, over every concurrent behaviour of clients, remote hosts and registrar",
 "Tests run one client at a time, without a race detector.",
 ["src/proxy.c","src/proxy_conn.c","src/registration.c","src/worker.c","src/conn.c","src/log.c","src/mutex_posix.c","src/proxy_client.c"],
 [("worker and slot lists","proxy_process and proxy_worker_func in src/proxy.c"),("status shared with the registration service","src/registration.c"),("session state","struct proxy_conn_priv in src/proxy_conn.c"),("descriptors","struct conn_priv in src/conn.c")],
 ["memory accesses and lock operations of the running code, call results, service after the burst"])
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s); 
    assert len(x["title"])<=80,x["title"]
print(len(P))
