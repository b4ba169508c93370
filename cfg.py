"""Which units and harnesses decide which property."""

TRUSTED_BASE = [
    "z3 5.3 (python bindings, quantifiers by E-matching)",
    "pyvc: the generator of obligations in /verif/pyvc (its semantics of the "
    "Python subset; integers are mathematical as in Python, floats are "
    "treated as reals)",
    "CPython's ast module",
]

PROOF = "contract-based deductive verification: obligations from the real " \
    "Python source (pyvc) discharged by z3"
BOUNDED = "bounded stand-in for contracts: the property's postconditions " \
    "checked on generated executions of the real code"

PROPS = {
    "C11": {
        "units": ["timer"], "level": "proof", "dyn": 10,
        "how": "TimerManager.__init__/add/remove/process/next_timeout/empty "
        "verified against sequence contracts for every queue content; the "
        "binary search's and the processing loop's invariants are found among "
        "candidate formulas and checked for inductiveness on every run.",
        "note": "Proved for all queue contents and any handlers that only add "
        "and remove timers. Assumes a non-decreasing clock within a call and "
        "real-valued times.",
    },
}
SD_HOW = "Every operation of ServiceDiscovery (client_connect, " \
    "client_disconnect, client_active, publish, unpublish, " \
    "create_subscription, activate_subscription, unsubscribe) and both timer " \
    "handlers (orphan_timeout, idle_timer_fired) are verified to preserve " \
    "one system invariant over services, connections, clients, " \
    "subscriptions, timers, tokens and subscribers' views, and to have " \
    "exactly the stated effect, for all states, arguments and numbers of " \
    "objects; service_changed and jitter against their own contracts; all " \
    "other code of sd.py is executed symbolically inside them. "
SRV_HOW = " The server's side (units/server.py): Connection.process for " \
    "every command and protocol state, activate, terminate, " \
    "subscription_triggered, client_idle, sock_activate, clean_out_handler " \
    "and Server.__init__ preserve one invariant over connections, " \
    "transactions, queues, registrations and admission; every message leads " \
    "to exactly the operation it asks for and the answer prescribed."
SD_NOTE = "Proved for every reachable state of the service discovery core " \
    "(sd.py) and of the server's translation between messages and " \
    "operations (server.py), under the assumptions listed in the evidence."
SRV_NOTE = "Proved for every message, protocol state and number of objects, " \
    "under the assumptions listed in the evidence (operations of sd.py, " \
    "event loop, timers and messages by their own contracts; filters and " \
    "the user's identity assumed)."
SDP = {
    "C01": "Invariant clauses C01: owner, holder and orphan time.",
    "C02": "Invariant clauses C02 tie pending expiries to orphans; "
    "orphan_timeout is verified in the state in which its timer fires; the "
    "timer's own behaviour is C11.",
    "C03": "publish and unpublish: outcome decided exactly by the rules; "
    "refused requests change no component of the state.",
    "C04": "Outcome rules of client_connect, publish, unpublish, "
    "unsubscribe; no operation changes the user of a service.",
    "C05": "Ghost View/Told: what each subscriber was told equals the set of "
    "matching services and their contents after every operation; each "
    "callback is checked against the view it changes.",
    "C06": "activate_subscription reports every match exactly once; no "
    "operation produces events for a subscription that does not exist.",
    "C07": "Ghost token sets: the accounted numbers are the cardinalities "
    "of what exists; ResourceManager and Consumer are verified against the "
    "same contracts (units/rm.py), including the sum over users.",
    "C08": "Invariant clauses C08, and ResourceManager keeps only users "
    "that hold something.",
    "C16": "Invariant clauses C16: exactly one idle timer per connection; "
    "idle_timer_fired in the state in which the timer fires; "
    "maximum idle time and jitter bounds after every restart.",
}
for _i, _t in SDP.items():
    PROPS[_i] = {"units": ["sd", "rm", "server"], "level": "proof",
                 "dyn": 25, "how": SD_HOW + _t + SRV_HOW, "note": SD_NOTE}
PROPS["C04"]["units"] = ["sd", "rm", "server", "user"]
PROPS["C04"]["how"] += " Connection.determine_user_id (units/user.py): " \
    "different peers get different identities, for every address and key " \
    "identifier."
SRVP = {
    "C13": "No handler ends with anything but a return, or a protocol or "
    "socket error that closes the one connection; closing deregisters it.",
    "C14": "Ghost automaton per transaction: request, accept, notifications, "
    "terminal message; failure reasons per outcome.",
    "C15": "Requests before hello; outcome of hello for all versions and "
    "client ids; version used for parsing.",
    "C18": "Admission invariant, accept only below the limit, "
    "clean_out_handler closes exactly the connections overdue.",
    "C22": "Listing loops: each element of the live collection leads to "
    "exactly one notification with its contents (services: iff the filter "
    "matches); frame: nothing else changes.",
}
for _i, _t in SRVP.items():
    PROPS[_i] = {"units": ["sd", "server"], "level": "proof", "dyn": 25,
                 "how": _t + SRV_HOW, "note": SRV_NOTE}
PROPS["C19"] = {
    "units": ["eventloop"], "level": "proof", "dyn": 15,
    "how": "Source.set_fd/clear_fd/set_timeout/clear_timeout/set_active/"
    "clear_active, EventLoop.__init__/add/remove preserve one registration "
    "invariant (epoll set, descriptor, timeout and active tables = state of "
    "the registered sources) and change nothing else; "
    "next_relative_timeout, fire_timeouts, fire_actives, handle_fds and run "
    "against contracts on what is dispatched, when, and how long epoll "
    "waits, with handlers that may use the whole API.",
    "note": "Proved for any number of sources and any handlers using the "
    "API; epoll, pipe and signal calls behave as specified in "
    "units/eventloop.py."}
PROPS["C12"] = {
    "units": ["proto"], "level": "proof", "dyn": 25,
    "how": "For every message type, command and protocol version: "
    "to_wire's output is exactly the JSON object the specification "
    "prescribes, and parse accepts exactly the texts that are such objects, "
    "returning the values they hold, for every JSON value (an algebraic "
    "datatype); every field class against its contract; everything else is "
    "ProtocolError. The specification is an independent transcription of "
    "the protocol document.",
    "note": "Proved for every JSON value. The text layer (json module, "
    "UTF-8) is assumed to round-trip and to raise only ValueError or "
    "RecursionError; checked on generated texts."}
PROPS["C20"] = {
    "units": ["server", "client"], "level": "proof", "dyn": 25,
    "how": "Ghost Sent against the queue of each connection: every message "
    "is queued once, as made, and handed to the transport once, in order; "
    "messages are lost only with the connection; the condition waited for "
    "is exactly what can make progress; no request is read at or above the "
    "soft limit. Verified for every function of server.Connection that "
    "touches the queue and for client.Client (try_send, process, "
    "async_request, issue_inform)." + SRV_HOW,
    "note": SRV_NOTE}
PROPS["C21"] = {
    "units": ["client"], "level": "proof", "dyn": 25,
    "how": "Ghost automaton per transaction of the client: each message in "
    "order leads to exactly one call of that transaction's callback with its "
    "values, each one out of order to a protocol error without effect, for "
    "every command, version, message and state, with callbacks that may use "
    "the library (including synchronous calls) and raise; every request "
    "method, synchronous and not, against what it asks for and returns; "
    "establishing a connection (Client.__init__, hello, tracking) and the "
    "tracker's queries and replies.",
    "note": "Proved for every message and any callbacks, under the "
    "assumptions listed in the evidence."}
PROPS["C09"] = {
    "units": ["filter"], "level": "proof", "dyn": 20,
    "how": "The language is a set of recursive functions over the text "
    "(where a word, a list of parts, a list of operands or a filter ends, "
    "and what it is); _parse_str, _parse (recursion by its own contract) and "
    "parse are verified to accept exactly the language and to return what "
    "the text says; escape and each kind's __str__ against recursive "
    "functions for printing; Filter.__eq__; and by induction over texts, "
    "lists and filters, what is printed parses back to the same filter.",
    "note": "Proved for every text and every filter; loop invariants are "
    "found among candidates. Nesting beyond Python's recursion limit is "
    "refused (a syntax error), as documented."}
PROPS["C10"] = {
    "units": ["filter"], "level": "proof", "dyn": 15,
    "how": "match of each of the eight kinds, on any properties (a map from "
    "keys to sets of texts and integers), equals the meaning of that kind; "
    "the search for the parts of a wildcard (Substring.compare) finds a "
    "placement iff one exists, with an exchange argument (the first "
    "occurrence leaves the most) discharged per iteration.",
    "note": "Proved for every filter and every set of properties; integers "
    "in texts are decimal as printed by str()."}
PROPS["C17"] = {
    "units": ["conf"], "level": "proof", "dyn": 15,
    "how": "Documents are an algebraic datatype (null, booleans, integers, "
    "texts, lists, dictionaries, others). load, populate and each of the "
    "functions they use is under contract: a return implies the document "
    "satisfies every documented restriction and every parameter has the "
    "value the document gives or the documented default; an error implies "
    "that it does not, and is the configuration error. Loops over domains, "
    "sockets, limits and TLS attributes are handled by invariants, for any "
    "number of them.",
    "note": "Proved for every document; a null value may count as absent or "
    "be refused (the documentation does not say).",
    "bounded": ["paf.conf __str__ methods"]}
PROPS["C25"] = {
    "units": ["xcm"], "level": "proof", "dyn": 12,
    "how": "The real paf/xcm.py, imported on a stub of libxcm, with ghost "
    "state for libxcm's calls, open sockets and attribute maps: every "
    "method of Socket, ConnectionSocket and ServerSocket, connect and "
    "server are verified against contracts on the one call made, its "
    "arguments, what is returned or raised for every result libxcm may "
    "give, and what is released; the declared argument and result types "
    "are compared with libxcm's.",
    "note": "Proved for every argument and every result of libxcm; libxcm "
    "itself and ctypes' conversions are assumed as specified in "
    "units/xcm.py (checked with a stub library in C)."}
PROPS["C26"] = {
    "units": ["domains"], "level": "proof", "dyn": 12,
    "how": "read_domain, domain_server, connect and list_domains against "
    "the directory's files (contents uninterpreted texts): loop invariants "
    "count the server lines and relate each server made to its line or JSON "
    "object, for every file, environment, name and argument.",
    "note": "Proved for every directory, file and argument; files, text "
    "methods and JSON parsing are assumed to behave as documented."}
PROPS["C27"] = {
    "units": ["daemon"], "level": "proof", "dyn": 12,
    "how": "main for every command line (a sequence of options of any length, "
    "their effect defined by recursion over it): what is logged, limited and "
    "served is what the options and the file say, bad ones are refused; run "
    "for any number of domains: one server each, with its domain's settings, "
    "each shut down once, or its sockets closed after a failure; "
    "Conf.set_domains; logging.configure.",
    "note": "Proved for every command line and configuration; getopt, the "
    "handlers of Python's logging and the user-supplied hook are assumed.",
    "bounded": ["paf.daemon.run_hook (finding the hook's function)"]}
for _i in ["C%02d" % n for n in range(1, 23)]:
    if _i not in PROPS:
        PROPS[_i] = {
            "units": [], "level": "exploration", "dyn": 25,
            "technique": BOUNDED,
            "how": "generated histories of the real code checked against "
            "an independent reference",
            "note": "bounded: no contract discharged yet"}
PROPS["C11"]["units"] = ["timer", "server"]
