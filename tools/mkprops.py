#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays readable)."""
import json
P = []

def p(id, title, st, over, qt, why, files, mech, state=(), obs=()):
    P.append({
        "id": id, "title": title, "statement": st,
        "quantifier": {"over": over, "text": qt},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(obs), "hook_needed": None}})

SD = "paf/sd.py"; SRV = "paf/server.py"; FLT = "paf/filter.py"; TMR = "paf/timer.py"
PRO = "paf/proto.py"; EVL = "paf/eventloop.py"; CNF = "paf/conf.py"; CLI = "paf/client.py"; XCM = "paf/xcm.py"

p("C01", "A published service has exactly one owner, and is orphaned iff that owner left",
  "Every published service is held by exactly one client, through exactly one of that client's connections, and is an orphan exactly when that connection has ended, the orphan start time being the moment it ended. When a client disconnects (in any way), all of the services its connection held, and no others, become orphans at that moment; republishing by the owner, or takeover by another client of the same user, makes a service a non-orphan held by the publisher's live connection. A service disappears only by unpublish or by orphan expiry.",
  ["histories"], "all sequences of connect, disconnect, publish, unpublish, purge and time steps by any number of clients and users",
  "The stable tests cover only filters and timers; even the full system tests sample a few histories, while the guarantee is an invariant over all of them (e.g. reconnect-republish-disconnect again).",
  [SD], [("Client.publish / capture_service", SD), ("Client.disconnect", SD), ("Client.remove_service", SD)],
  [("DB.services", "published services by id", SD), ("Connection.services", "services held by a (live or dead) connection", SD)],
  ["ServiceDiscovery.get_services()"])

p("C02", "An orphan is removed when its TTL has passed, never earlier; only orphans are",
  "For every orphan service exactly one expiry is pending, at its orphan start time plus its current TTL, and for a non-orphan none is pending. When the expiry fires the service is removed and its subscribers are told; a service that was adopted, republished or unpublished in the meantime is not removed by a stale expiry.",
  ["histories"], "all histories of publish/republish/TTL change/disconnect/takeover/unpublish and all TTL values",
  "Real-time tests wait for a few TTLs; they cannot cover every interleaving of expiry with republish, takeover and TTL change.",
  [SD, TMR], [("ServiceDiscovery.maintain_orphans / add_/remove_/update_orphan_timer", SD), ("ServiceDiscovery.orphan_timeout", SD)],
  [("ServiceDiscovery.orphan_timers", "pending expiry by service id", SD)], ["TimerManager contents", "get_services()"])

p("C03", "Publish accepts only a newer generation or an identical republish",
  "Publishing an unknown service id creates it with exactly the given generation, properties and TTL, owned by the publisher. For a known service a higher generation replaces its contents, the same generation is accepted only if properties and TTL are identical (possibly changing owner or ending orphanhood), and anything else is refused. A refused publish or unpublish leaves services, subscriptions, resource counts and timers unchanged, and a service's generation never decreases during its life.",
  ["inputs", "histories"], "all service states, generations, property sets, TTLs and publishers",
  "The outcome is a function of unbounded state (existing generation, owner, orphan status) and inputs; tests try a few rows.",
  [SD], [("Client.publish", SD), ("Client.unpublish", SD)], [], ["ServiceDiscovery.publish()", "publish responses"])

p("C04", "Users cannot touch each other's services, clients each other's subscriptions",
  "Only a client of the user that published a service may republish, take over or unpublish it; only the client that created a subscription may cancel it; and while a client id is connected or owns services it may only be used by the user it belongs to. A refused attempt is answered with a permission failure and changes nothing, and a service never changes user.",
  ["inputs", "histories"], "all pairs of users and clients, all reachable server states, all ids",
  "Access control is a for-all over users, ids and states; tests try one intruder.",
  [SD, SRV], [("Service.check_access", SD), ("Subscription.check_access", SD), ("Client.connect", SD), ("Connection.determine_user_id", SRV)],
  [], ["publish/unpublish/unsubscribe/hello responses"])

p("C05", "Subscribers see exactly the matching services, with their current contents",
  "At every point, what an active subscription has been told (appeared, modified, disappeared) amounts to exactly the set of published services matching its filter, each with its current generation, properties, TTL, owner and orphan status. A service is reported as appeared only when it was not visible before, and as modified or disappeared only when it was, according to whether its old and new properties match the filter; every change of a visible service is reported once to every subscription and in the order it happened.",
  ["histories", "inputs"], "all service histories, all filters, any number of subscriptions",
  "It must hold for each filter/old/new combination and any history including ownership and orphan changes, takeovers and unpublish by non-owners.",
  [SD, SRV], [("Subscription.notify", SD), ("Service.commit", SD), ("ServiceDiscovery.service_changed", SD), ("Connection.subscription_triggered", SRV)],
  [("Service.prev/cur", "generation before and after a change", SD)], ["subscription match callbacks", "notify messages"])

p("C06", "Activation reports every existing match once; nothing is reported after cancel",
  "After a subscription is accepted, every service matching at that time is reported as appeared exactly once, none before the acceptance, and non-matching ones never. After unsubscribe or disconnect no further notification is produced for the subscription, and its id becomes free again; a subscription id that is in use is refused without effect.",
  ["histories", "inputs"], "all sets of existing services, filters and subscription ids, and all later histories",
  "A for-all over existing service sets and over later histories.",
  [SD, SRV], [("Client.create_/activate_subscription, unsubscribe, disconnect", SD), ("Connection.subscribe_request / unsubscribe_request", SRV)],
  [("DB.subscriptions", "live subscriptions by id", SD)], ["subscription match callbacks"])

p("C07", "Resource limits are exact: never exceeded, never refused early, always returned",
  "Per user and in total, the number of connected clients, subscriptions and services accounted equals the number that exist, and never exceeds a configured limit. A request is refused for lack of resources only if a limit is already reached, a refusal consumes nothing, and every released item (disconnect, unsubscribe, unpublish, orphan expiry) gives back exactly one token to the user that holds it.",
  ["histories", "configurations"], "all operation histories, all limits including zero and unlimited",
  "Leaks and double releases show only after long or unusual histories (takeover, refused connects, expiry), for every limit setting.",
  [SD], [("ResourceManager.allocate / deallocate / check_total", SD), ("Consumer", SD), ("Client.connect/disconnect/publish/remove_service/...", SD)],
  [("ResourceManager.consumers", "tokens held per user", SD)], ["insufficient-resources failures"])

p("C08", "No residue: a client is remembered only while connected or owning services",
  "The server keeps a record of a client exactly while it is connected or owns orphaned services, keeps an ended connection only while it still holds services, and keeps accounting for a user only while that user holds resources. When the last service is taken over, unpublished or expires, the record is gone and the client id is free for any user.",
  ["histories"], "all histories of connect, disconnect, publish, takeover, unpublish, expiry and refused requests",
  "Leaks do not fail functional tests; they need an invariant over all histories.",
  [SD], [("Client.is_stale / remove_connection / DB.remove_client", SD), ("ResourceManager.deallocate", SD)],
  [("DB.clients", "client records", SD), ("Client.inactive_connections", "ended connections still holding services", SD)],
  ["DB.clients", "ResourceManager.consumers"])

p("C09", "Filter text: exact language, printing and escaping round-trip, clean rejection",
  "Every string is either accepted as a filter of the filter language (balanced prefix expressions, special characters only when escaped, no empty key or value) or rejected with a filter syntax error, never with any other failure and never by hanging. Printing a filter and parsing the result gives an equal filter with the same meaning, and escaping any string and embedding it as a key or value yields a filter on exactly that string.",
  ["inputs"], "all strings, all filters of any depth, all keys and values",
  "Round-trip and rejection are claims about all strings; tests list a few dozen.",
  [FLT], [("parse / _parse*", FLT), ("escape", FLT), ("__str__", FLT)], [("SPECIALS", "characters needing escape", FLT)], ["paf.filter.parse", "paf.filter.escape", "str(filter)"])

p("C10", "Filter matching means what the filter language says, on any properties",
  "Matching a filter against any property set terminates with true or false: equality, greater/less than, presence, wildcard substring, not, and, or have their documented meaning over all values of multi-valued properties, integer comparison applies only to integer values, and wildcards match any characters. Matching never fails and never changes the filter or the properties.",
  ["inputs"], "all filters and all property sets (string and integer, multi-valued, empty, any characters)",
  "Property values are arbitrary (including integers under a substring filter and newlines), which no finite list covers.",
  [FLT], [("match / compare of every filter class", FLT), ("Substring regular expression", FLT)], [], ["Filter.match"])

p("C11", "Timers fire exactly once, in order, never early; cancelled timers never fire",
  "A timer that is added fires exactly once, at the first processing at or after its expiration time and never before, unless it is removed first, in which case it never fires; timers due together fire in expiration order. The reported next timeout is always the earliest pending expiration, and the owner is told whenever that earliest expiration changes, also when handlers add or remove timers.",
  ["inputs", "histories"], "all sequences of add, remove and process with any times, including equal times and re-entrant handlers",
  "The insertion point search must be right for every list and time; a handful of lists does not settle it.",
  [TMR], [("TimerManager._allocate_idx / add / remove / process", TMR)], [("TimerManager.deque", "pending timers sorted by expiration", TMR)], ["handlers", "next_timeout()", "next_timeout_cb"])

p("C12", "Wire messages: parsing is total and typed, encoding and decoding are inverse",
  "Every byte string received is either turned into a message of a known command and type whose fields have exactly the specified names and types, or rejected with a protocol error; nothing else can happen. Encoding any well-formed message and parsing it gives back the same command, transaction id, type, arguments and optional arguments, and an encoded message contains exactly the specified fields.",
  ["inputs"], "all byte strings (any JSON shape and nesting), all protocol versions, all well-formed messages",
  "A for-all over JSON values and over messages of every command; the codec has no stable unit tests.",
  [PRO], [("Message.parse / to_wire", PRO), ("Field.pull / put and subclasses", PRO), ("TransactionType tables", PRO)], [], ["Message.parse", "Message.to_wire"])

p("C13", "No client message can bring the server down",
  "Whatever a client sends, in any order and in any protocol state, the server answers it or drops that one connection: no other failure leaves the connection's message handling. A dropped connection is fully deregistered (subscriptions cancelled, services orphaned, connection count reduced), and other clients are unaffected.",
  ["inputs", "histories", "fault_sequences"], "all messages from any client in any reachable connection/server state, all transport errors",
  "Robustness against arbitrary or hostile peers is exactly what sampled well-behaved test clients do not show.",
  [SRV, PRO, SD, FLT], [("Connection.activate / process / invoke_handler / terminate", SRV), ("Transaction.message/request/inform", SRV)], [], ["process liveness", "connection close"])

p("C14", "Each request gets exactly one well-formed, terminated answer in its transaction",
  "Every request is answered in its own transaction id: single-response commands with exactly one complete or fail; multi-response and two-way commands with either one fail, or one accept, then notifications, then at most one terminal message; nothing follows a terminal message and the transaction id is then free. Failure reasons are the documented ones, and a reused active transaction id or a message foreign to the transaction is a protocol error.",
  ["inputs", "histories"], "all commands, all outcomes of the command, all orders of concurrent transactions on a connection",
  "All commands x all failure outcomes x all transaction states; tests sample the good cases.",
  [SRV, PRO], [("Transaction", SRV), ("Connection.*_request / *_inform", SRV)], [("Transaction.state", "protocol state of a transaction", SRV)], ["messages sent"])

p("C15", "Nothing works before a successful hello, which fixes client id and version",
  "Before a successful hello every other command is refused with no-hello and has no effect. Hello succeeds only with a protocol version supported by both sides, and then selects the highest such version; the client id cannot change afterwards, and a client id that is already connected is refused. Each failure of hello has its documented reason, and a repeated hello is answered with the version in use.",
  ["inputs", "histories", "configurations"], "all version ranges, configured ranges, client ids, users and orders of messages",
  "All version-range pairs and message orders.",
  [SRV, CNF], [("Connection.process / hello_request", SRV), ("ProtoVersionLimitConf.get_highest_allowed", CNF)], [("Connection.handshaked / proto_version / client_id", "handshake state", SRV)], ["hello/other responses"])

p("C16", "Idle clients are warned, then dropped; live clients never are",
  "While a client is connected exactly one idle timer is pending; after about half its maximum idle time without traffic it is queried, and if still silent for the remaining half it is disconnected, while any message restarts the cycle. The maximum idle time is the configured upper bound if the client has no services, otherwise its lowest TTL clamped to the configured bounds; clients of protocol versions without liveness tracking are kept as long as their transport connection is up.",
  ["histories", "configurations", "inputs"], "all traffic patterns, TTLs and idle bounds",
  "Timing-dependent over all TTL/bound combinations and traffic histories; nothing in the stable tests.",
  [SD, SRV], [("Connection.active / check_idle / idle_timer_fired / max_idle_time", SD), ("IdleLimit", SD), ("Connection.check_idle / Server.client_idle", SRV)],
  [("Connection.idle_state / idle_timer", "liveness state", SD)], ["track queries", "disconnects"])

p("C17", "Configuration is applied exactly or rejected with a configuration error",
  "Every parsed configuration document is either rejected with a configuration error, or results in exactly the configured values with documented defaults for the absent ones. Ill-typed or contradictory values (unknown resource types, negative or non-integer limits, version or idle ranges that are empty or out of bounds, a parameter given together with its alias, TLS settings on a non-TLS address) are always rejected.",
  ["inputs", "configurations"], "all YAML documents",
  "A for-all over document shapes and values; the stable tests contain no configuration test.",
  [CNF, SD], [("populate and helpers", CNF), ("IdleLimit", SD), ("ProtoVersionLimitConf", CNF)], [], ["paf.conf.populate"])

p("C18", "Connection admission: never above the limit, always reopened, idle ones evicted",
  "The number of open connections never exceeds the configured total client limit; while the limit is reached the server does not accept, and as soon as a connection ends it accepts again. Every connection that has not completed the handshake within the allowed time is dropped, unless it asked for a client id that is still in use, and one that has is never dropped for that reason; each open connection is in exactly one of the two sets.",
  ["histories", "configurations", "fault_sequences"], "all arrival/termination/handshake histories and limits, including accept failures",
  "Admission is a counter invariant over unbounded histories.",
  [SRV], [("Server.sock_activate / conn_terminated / conn_handshake_completed", SRV), ("Server.clean_out_connections / schedule_clean_out", SRV)],
  [("Server.clientless_connections / client_connections", "open connections", SRV)], ["accepts", "closes"])

p("C19", "The event loop dispatches exactly the registered sources, on time",
  "After any sequence of adding, changing and removing sources, exactly the descriptors, timeouts and active flags of the currently registered sources are watched, with their current masks; a removed source's handler is never called for events of a new poll. The wait time never exceeds the earliest pending timeout and is not negative, due timeouts are fired, and none is fired early; events on vanished descriptors are ignored.",
  ["histories", "inputs"], "all sequences of add/remove/set_fd/clear_fd/set_timeout/clear_timeout/set_active/clear_active and event batches",
  "A registration invariant over histories; there are no stable tests of the event loop.",
  [EVL], [("EventLoop.add/remove/changed_*/_register_*/_unregister_*", EVL), ("next_relative_timeout / fire_timeouts / handle_fds", EVL)],
  [("source_fd / fd_source / source_timeout / source_active", "registrations", EVL)], ["epoll registrations", "handler calls"])

p("C20", "Responses reach the transport in order, once each, under back-pressure",
  "Messages produced for a client are handed to the transport in production order, each exactly once, whatever mix of would-block and success the transport returns, on the server and in the client library. The server stops reading requests from a client while its queue is at or above the soft limit, resumes below it, and asks for write readiness exactly while messages are queued.",
  ["fault_sequences", "schedules", "inputs"], "all sequences of produced messages and transport results (success, would-block, error)",
  "The interleaving of would-block results with queue states is unbounded.",
  [SRV, CLI], [("Connection.respond / try_send / update_source / activate", SRV), ("Client.try_send / update / process", CLI)],
  [("out_wire_msgs", "output queue", SRV)], ["xcm send calls"])

p("C21", "The client library delivers each server message to the right request, or errors",
  "Each request issued through the client library gets a fresh transaction id, and its callback receives exactly the server messages of that transaction in order: accept, notifications and one terminal message as its command type allows, and nothing afterwards. Any other message (unknown transaction, wrong command, wrong order, malformed, client-type) raises a protocol error, and a failed synchronous request raises a transaction error carrying the reason.",
  ["inputs", "histories"], "all server message sequences, all commands, all failure reasons",
  "A for-all over server behaviours incl. misbehaving servers.",
  [CLI, PRO], [("Client.async_request / try_receive", CLI), ("Transaction.consume_message", CLI), ("Call classes", CLI)],
  [("Client.transactions", "open transactions", CLI)], ["response callbacks", "raised errors"])

p("C22", "Listings report exactly the current state",
  "Listing services returns each published service matching the given filter exactly once, with its current contents, and no other; listing subscriptions returns each live subscription exactly once with its owner and filter; listing clients returns each connected client exactly once with its address, connect time and, where the protocol version has them, idle time, version and latency. Listing changes nothing.",
  ["histories", "inputs"], "all server states and filters",
  "A for-all over server states and filters.",
  [SRV, SD], [("Connection.services_request / subscriptions_request / clients_request", SRV)], [], ["notify messages of list commands"])

p("C23", "Many servers, one view: clients of a domain converge across server restarts",
  "When a domain is served by several servers or a server restarts, clients that reconnect and republish to every server make each server eventually hold the same services, and subscribers that merge notifications by service id and generation converge to the same view.",
  ["schedules", "crash_points", "fault_sequences"], "all interleavings of server crashes, restarts and client reconnects",
  "It is a property of the distributed system over time, not of one process.",
  ["doc/protocol", CLI, SRV], [("client republish on reconnect (applications using the library)", "README / protocol document")])

p("C24", "Transport identities and TLS settings are enforced by the transport library",
  "The user identity the server derives from a connection is authentic: a TLS peer cannot present another peer's subject key identifier, and configured certificates and revocation lists are in force on every connection.",
  ["inputs", "fault_sequences"], "all peers and certificates",
  "It depends on the XCM/TLS libraries, which are not part of the repository.",
  ["paf/xcm.py", SRV], [("Connection.determine_user_id", SRV), ("Server.add_socket", SRV)])

p("C25", "Transport calls do what was asked of libxcm and report what it did",
  "Each operation of the transport wrapper makes exactly one corresponding call to the XCM library, on its own open socket and with exactly the arguments given (attributes by their type), and returns what the library returned (received messages byte for byte) or raises an OSError with the errno the library set. A socket is closed exactly once, no operation reaches the library on a closed socket, and every attribute map created for a call is released after it.",
  ["inputs", "fault_sequences"], "all messages, addresses, attributes and results of libxcm (success, would-block, any error), all states of a socket",
  "All results and errors of the library times all operations and argument types; nothing in the stable tests loads the transport.",
  [XCM], [("Socket.* / ConnectionSocket.send, receive / ServerSocket.accept", XCM), ("connect / server / _attr_map_add", XCM)],
  [("Socket.xcm_socket", "handle of the library's socket, None when closed", XCM)], ["calls to libxcm", "raised errors"])
p("C26", "A domain's name leads to the server that its domain file names",
  "Connecting to a domain uses the first server its domain file lists, with address, TLS attributes and protocol versions exactly as written there (JSON or one address per line; blank lines and comments are no servers, what is absent has its default); a name without a readable file or without servers is itself the address. Listing the domains gives each regular file of the domain directory exactly once. A client gets the client id it was given, or else a random number of 63 bits.",
  ["inputs"], "all domain files, plain and JSON, all names, directories and arguments",
  "Files of any length and form; nothing in the stable tests loads the client library.",
  [CLI], [("read_domain / domain_server / parse_domain_json / parse_domain_custom", CLI), ("connect / list_domains", CLI)],
  [("ServerConf", "address, protocol versions and transport attributes of a server", CLI)], ["arguments of Client", "list_domains"])

p("C27", "The server process serves and logs exactly what it was told to",
  "Started with any command line, pafd serves one domain per address argument and one per -m option (its '+'-separated addresses), or, without any, the configuration file's domains with their settings, under the configured limits; every other option overrides what it documents in the file given last, later ones win, and the log goes where the result says, as of that level. A bad option, file or log, or no domain: nothing is started and the status is not 0. When the event loop ends each server is shut down once and the status is 0; after a failure no socket stays open.",
  ["inputs", "fault_sequences"], "all command lines, configurations, numbers of domains, and failures of any server, the log or the event loop",
  "Sequences of options of any length and order; nothing in the stable tests loads the daemon.",
  ["paf/daemon.py", "paf/logging.py", "paf/conf.py"], [("main / run", "paf/daemon.py"), ("configure", "paf/logging.py"), ("Conf.set_domains", "paf/conf.py")],
  [("Conf", "domains, limits and log settings", "paf/conf.py")], ["arguments of server.create and logging.configure", "exit status"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
