def bug(name, prop, needs, breaks, edits, demo):
    BUGS[name] = {"property": prop, "needs": needs, "breaks": breaks,
                  "edits": edits, "demo": demo}


SD, SRV, TIMER, FILTER, PROTO, CONF, LOOP, CLIENT = (
    "paf/%s.py" % n for n in ("sd", "server", "timer", "filter", "proto",
                              "conf", "eventloop", "client"))

bug("takeover-keeps-orphan", "C01",
    "an orphan taken over by another client of the same user with an "
    "identical republish",
    "the service stays an orphan though its new holder is connected",
    [(SD, '''                        # need to transfer resource tokens.
                        change.orphan_since = None
''', '''                        # need to transfer resource tokens.
''')], '''
from common import *
s, tm, sd = make_sd()
lim = sd.IdleLimit(30, 30)
s.client_connect(1, "u", lim, lambda c, w: None)
s.client_connect(2, "u", lim, lambda c, w: None)
s.publish(1, 7, 0, {"a": {"b"}}, 5)
s.client_disconnect(1)
clock.t += 2
s.publish(2, 7, 0, {"a": {"b"}}, 5)
assert not s.get_service(7).is_orphan()
clock.t += 4
tm.process()
assert s.has_service(7)
''')

bug("stale-expiry", "C02",
    "an orphan adopted by a republish, and then time passing beyond the "
    "expiry that was pending while it was an orphan (two sites cooperate)",
    "the pending expiry is forgotten instead of cancelled and removes the "
    "adopted service",
    [(SD, '''            del self.orphan_timers[service.service_id]
            self.timer_manager.remove(timer)
''', '''            del self.orphan_timers[service.service_id]
'''), (SD, '''        del self.orphan_timers[service_id]
        self.purge_orphan(service_id)
''', '''        self.orphan_timers.pop(service_id, None)
        if self.has_service(service_id):
            self.purge_orphan(service_id)
''')], '''
from common import *
s, tm, sd = make_sd()
lim = sd.IdleLimit(30, 30)
s.client_connect(1, "u", lim, lambda c, w: None)
s.publish(1, 7, 0, {"a": {"b"}}, 5)
s.client_disconnect(1)
clock.t += 2
s.client_connect(1, "u", lim, lambda c, w: None)
s.publish(1, 7, 0, {"a": {"b"}}, 5)
clock.t += 6
tm.process()
assert s.has_service(7)
''')

bug("same-generation-new-ttl", "C03",
    "a republish with the same generation and properties, but another TTL",
    "the republish is accepted and ignored instead of being refused",
    [(SD, '''                if service_props != service.props() or ttl != service.ttl():
''', '''                if service_props != service.props():
''')], '''
from common import *
s, tm, sd = make_sd()
s.client_connect(1, "u", sd.IdleLimit(30, 30), lambda c, w: None)
s.publish(1, 7, 3, {"a": {"b"}}, 5)
try:
    s.publish(1, 7, 3, {"a": {"b"}}, 6)
except sd.SameGenerationButDifferentError:
    pass
else:
    assert 0, "accepted"
''')

bug("orphans-are-nobodys", "C04",
    "a client of another user unpublishing a service while it is an orphan",
    "an orphan may be unpublished by any user",
    [(SD, '''            raise NotFoundError("service", service_id)

        service.check_access(self.user_id)

        # A non-owning''', '''            raise NotFoundError("service", service_id)

        if not service.is_orphan():
            service.check_access(self.user_id)

        # A non-owning''')], '''
from common import *
s, tm, sd = make_sd()
lim = sd.IdleLimit(30, 30)
s.client_connect(1, "u", lim, lambda c, w: None)
s.publish(1, 7, 3, {"a": {"b"}}, 5)
s.client_disconnect(1)
s.client_connect(2, "v", lim, lambda c, w: None)
try:
    s.unpublish(2, 7)
except sd.PermissionError:
    pass
else:
    assert 0, "unpublished"
assert s.has_service(7)
''')

bug("quiet-modification", "C05",
    "a change of a visible service that touches neither generation nor "
    "properties, such as its owner disconnecting",
    "subscribers are not told that a service became an orphan, or stopped "
    "being one",
    [(SD, '''            if self.matches(before) and self.matches(after):
                self.match_cb(self.sub_id, MatchType.MODIFIED, service)
''', '''            if self.matches(before) and self.matches(after):
                if service.generation() != service.prev_generation() or \\
                   service.client_id() != service.prev_client_id():
                    self.match_cb(self.sub_id, MatchType.MODIFIED, service)
''')], '''
from common import *
s, tm, sd = make_sd()
lim = sd.IdleLimit(30, 30)
s.client_connect(1, "u", lim, lambda c, w: None)
s.client_connect(2, "u", lim, lambda c, w: None)
ev = Events()
s.create_subscription(2, 9, None, ev)
s.activate_subscription(2, 9)
s.publish(1, 7, 3, {"a": {"b"}}, 5)
s.client_disconnect(1)
assert [e[1] for e in ev.all] == ["APPEARED", "MODIFIED"], ev.all
''')

bug("notified-while-leaving", "C06",
    "a client with a subscription matching its own service disconnects",
    "the cancelled connection's subscription is still notified of the "
    "services orphaned by the disconnect",
    [(SD, '''        for subscription in list(inactivated.get_subscriptions()):
            self.remove_subscription(subscription)

        if inactivated.is_stale():
            self.remove_connection(inactivated)

        for service in inactivated.get_services():
            with service.modify() as change:
                change.orphan_since = inactivated.disconnected_at
''', '''        for service in inactivated.get_services():
            with service.modify() as change:
                change.orphan_since = inactivated.disconnected_at

        for subscription in list(inactivated.get_subscriptions()):
            self.remove_subscription(subscription)

        if inactivated.is_stale():
            self.remove_connection(inactivated)
''')], '''
from common import *
s, tm, sd = make_sd()
s.client_connect(1, "u", sd.IdleLimit(30, 30), lambda c, w: None)
ev = Events()
s.create_subscription(1, 9, None, ev)
s.activate_subscription(1, 9)
s.publish(1, 7, 3, {"a": {"b"}}, 5)
n = len(ev.all)
s.client_disconnect(1)
assert len(ev.all) == n, ev.all
''')

bug("refusal-costs-a-token", "C07",
    "a subscribe request with an id that is in use, under a limit",
    "the refused request consumes a subscription token for good",
    [(SD, '''        if self.db.has_subscription(sub_id):
            raise AlreadyExistsError("subscription", sub_id)

        self.resource_manager.allocate(self.user_id,
                                       ResourceType.SUBSCRIPTION)
''', '''        self.resource_manager.allocate(self.user_id,
                                       ResourceType.SUBSCRIPTION)

        if self.db.has_subscription(sub_id):
            raise AlreadyExistsError("subscription", sub_id)
''')], '''
from common import *
s, tm, sd = make_sd(total={"subscriptions": 2})
s.client_connect(1, "u", sd.IdleLimit(30, 30), lambda c, w: None)
s.create_subscription(1, 9, None, Events())
for i in range(2):
    try:
        s.create_subscription(1, 9, None, Events())
    except sd.AlreadyExistsError:
        pass
s.create_subscription(1, 10, None, Events())
''')

bug("user-never-forgotten", "C08",
    "a user's last resource being an orphan that expires after the "
    "disconnect",
    "the accounting record of the user stays behind for ever",
    [(SD, '''        if not consumer.has_allocations():
            del self.consumers[user_id]
''', '''        if resource_type != ResourceType.SERVICE and \\
           not consumer.has_allocations():
            del self.consumers[user_id]
''')], '''
from common import *
s, tm, sd = make_sd()
s.client_connect(1, "u", sd.IdleLimit(30, 30), lambda c, w: None)
s.publish(1, 7, 3, {"a": {"b"}}, 5)
s.client_disconnect(1)
clock.t += 6
tm.process()
assert not s.has_service(7)
assert len(s.resource_manager.consumers) == 0
''')

bug("wildcard-middle-unescaped", "C09",
    "a wildcard filter with a special character in a middle part",
    "printing such a filter does not escape the character, so the printed "
    "text is malformed or means something else",
    [(FILTER, '''            s += "%s%s" % (escape(im), ANY)
''', '''            s += "%s%s" % (im, ANY)
''')], '''
from common import *
import paf.filter as f
t = "(a=b*\\\\(c\\\\**d)"
p = f.parse(t)
assert str(p) == t, str(p)
assert f.parse(str(p)) == p
assert f.parse(str(p)).match({"a": {"b-(c*-d"}})
''')

bug("numeric-equality", "C10",
    "an equality filter whose value is a number written unusually, against "
    "an integer property",
    "(a=07) matches the integer 7, whose text is 7",
    [(FILTER, '''            return self.value == str(value)
''', '''            try:
                return int(self.value) == value
            except ValueError:
                return False
''')], '''
from common import *
import paf.filter as f
assert f.parse("(a=7)").match({"a": {7}})
assert not f.parse("(a=07)").match({"a": {7}})
assert not f.parse("(a=x)").match({"a": {7}})
''')

bug("fired-timer-popped-late", "C11",
    "a timer handler that adds a timer that is already due, ahead of the "
    "one being fired",
    "the fired timer is removed after its handler ran: the added timer is "
    "dropped and the fired one fires again",
    [(TIMER, '''            self.deque.popleft()
            candidate.handler()

''', '''            candidate.handler()
            self.deque.popleft()

''')], '''
from common import *
import paf.timer as timer
tm = timer.TimerManager()
fired = []


def first():
    fired.append("first")
    if len(fired) == 1:
        tm.add(lambda: fired.append("second"), clock.t - 5)


tm.add(first, clock.t - 1)
tm.process()
assert fired == ["first", "second"], fired
assert tm.empty()
''')

bug("optional-zero-lost", "C12",
    "a message with an optional field whose value is zero (or empty)",
    "the decoder drops the field: generation 0 or TTL 0 disappear from "
    "notifications",
    [(PROTO, '''                if arg is not None:
                    optargs[field.python_name()] = arg
''', '''                if arg:
                    optargs[field.python_name()] = arg
''')], '''
from common import *
import paf.proto as proto
m = proto.Message(proto.TA_SUBSCRIBE, 1, "notify", ["appeared", 7],
                  {"generation": 0, "service_props": {"a": {"b"}}, "ttl": 0,
                   "client_id": 3})
p = proto.Message.parse(3, m.to_wire())
assert p.optargs == m.optargs, p.optargs
''')

bug("version-minimum-ignored", "C15",
    "a server configured for protocol version 3 only, and a client that "
    "supports version 2 only",
    "hello succeeds with a version the configuration excludes",
    [(CONF, '''        if min_version <= max_version:
            return max_version
''', '''        if client_version_min <= max_version and \\
           self.version_min <= self.version_max:
            return max_version
'''), (CONF, '''        min_version = max(client_version_min, self.version_min)
''', '')], '''
from common import *
s, listen = make_server(vmin=3)
a = Peer(s, listen)
r = a.hello(1, 2, 2)
assert r[0]["msg-type"] == "fail", r
''')

bug("reply-does-not-restart", "C16",
    "a client that answers the idle query and stays otherwise silent",
    "traffic after the warning does not restart the idle cycle: a live "
    "client is dropped",
    [(SD, '''        if self.idle_state != IdleState.TIMED_OUT:
            self.idle_state = IdleState.ACTIVE

            if self.idle_limit is not None:
''', '''        if self.idle_state != IdleState.TIMED_OUT:
            if self.idle_limit is not None and \\
               self.idle_state == IdleState.ACTIVE:
''')], '''
from common import *
s, tm, sd = make_sd()
calls = []
s.client_connect(1, "u", sd.IdleLimit(10, 10),
                 lambda c, w: calls.append(w))
clock.t += 6
tm.process()
assert calls == [True], calls
clock.t += 1
s.client_active(1)
clock.t += 4.2
tm.process()
assert calls == [True], calls
''')

bug("false-means-absent", "C17",
    "a configuration value that is zero, false or empty",
    "out-of-range zero bounds and ill-typed empty values are silently "
    "replaced by defaults instead of being rejected",
    [(CONF, '''    if value is None:
        if required:
            assert default is None
''', '''    if not value:
        if required:
            assert default is None
''')], '''
from common import *
import paf.logging
import logging.handlers
import paf.conf as conf
c = conf.Conf()
try:
    conf.populate(c, {"domains": [{"sockets": ["ux:a"],
                                   "idle": {"min": 0, "max": 30}}]})
except conf.Error:
    pass
else:
    assert 0, "accepted: %s" % c
''')

bug("never-reopened", "C18",
    "the client limit being reached and a connection ending after that",
    "the listening socket is not re-armed, so nobody is accepted any more",
    [(SRV, '''        if self.max_clients_reached():
            for source in self.server_socks.keys():
                source.update(xcm.SO_ACCEPTABLE)

        if conn.handshaked:
            del self.client_connections[conn.client_id]
        else:
            self.clientless_connections.remove(conn)
''', '''        if conn.handshaked:
            del self.client_connections[conn.client_id]
        else:
            self.clientless_connections.remove(conn)

        if self.max_clients_reached():
            for source in self.server_socks.keys():
                source.update(xcm.SO_ACCEPTABLE)
''')], '''
from common import *
s, listen = make_server(total={"clients": 1})
a = Peer(s, listen)
a.hello(1)
s.sock_activate()
assert listen.target == 0, listen.target
a.eof()
assert listen.target == xcm.SO_ACCEPTABLE, listen.target
''')

bug("mask-change-missed", "C19",
    "a registered source changing its event mask and keeping its descriptor",
    "the descriptor is watched with the old mask",
    [(LOOP, '''    def changed_fd(self, source):
        self._unregister_fd(source)
        self._register_fd(source)
''', '''    def changed_fd(self, source):
        if source.fd in self.fd_source and \\
           self.fd_source[source.fd] is source:
            return
        self._unregister_fd(source)
        self._register_fd(source)
''')], '''
from common import *
import select


class Epoll:
    def __init__(self):
        self.fds = {}

    def register(self, fd, mask):
        self.fds[fd] = mask

    def modify(self, fd, mask):
        self.fds[fd] = mask

    def unregister(self, fd):
        del self.fds[fd]

    def poll(self, timeout=None):
        return []


select.epoll = Epoll
import paf.eventloop as el
loop = el.EventLoop()
src = el.Source()
src.set_fd(77, select.EPOLLIN)
loop.add(src, lambda: None)
src.set_fd(77, select.EPOLLIN | select.EPOLLOUT)
assert loop.epoll.fds[77] == select.EPOLLIN | select.EPOLLOUT, loop.epoll.fds
''')

bug("would-block-reverses", "C20",
    "the transport taking some of the queued messages and then blocking "
    "with two or more left",
    "the messages put back into the queue are in reverse order",
    [(SRV, '''        for i in range(min(MAX_SEND_BATCH, len(self.out_wire_msgs))):
            try:
                out_wire_msg = self.out_wire_msgs.popleft()
                self.conn_sock.send(out_wire_msg)
                self.debug("Sent message: %s." % out_wire_msg,
                           LogCategory.PROTOCOL)
            except xcm.error as e:
                if e.errno != errno.EAGAIN:
                    raise
                self.out_wire_msgs.appendleft(out_wire_msg)
''', '''        batch = [self.out_wire_msgs.popleft() for i in
                 range(min(MAX_SEND_BATCH, len(self.out_wire_msgs)))]
        while len(batch) > 0:
            try:
                self.conn_sock.send(batch[0])
                self.debug("Sent message: %s." % batch.pop(0),
                           LogCategory.PROTOCOL)
            except xcm.error as e:
                if e.errno != errno.EAGAIN:
                    raise
                self.out_wire_msgs.extendleft(batch)
                break
''')], '''
from common import *
s, listen = make_server()
a = Peer(s, listen)
a.hello(1)
for i in range(3):
    a.request("publish", service_id=i, generation=1, service_props={}, ttl=9)
a.sock.plan = [False, True]
a.ta += 1
a.sock.inbox.append(json.dumps({"ta-cmd": "services", "ta-id": a.ta,
                                "msg-type": "request"}).encode())
a.conn.activate()
a.sock.plan = []
a.run()
types = [m["msg-type"] for m in a.answers(a.ta)]
assert types == ["accept"] + 3 * ["notify"] + ["complete"], types
''')

bug("notify-before-accept", "C21",
    "a server that sends a notification before accepting the request",
    "the client library delivers the notification instead of raising a "
    "protocol error",
    [(CLIENT, '''        elif (msg_type == proto.MSG_TYPE_NOTIFY and
              self.state == TransactionState.ACCEPTED):
''', '''        elif (msg_type == proto.MSG_TYPE_NOTIFY and
              self.state != TransactionState.TERMINATED and
              self.ta_type.ia_type != proto.InteractionType.SINGLE_RESPONSE):
''')], '''
from common import *
import paf.client as client
import paf.proto as proto
sock = xcm.next_sock = Sock()
c = client.Client(1, client.ServerConf("ux:a"), False, lambda: None)


def answer(**m):
    m = {k.replace("_", "-"): v for k, v in m.items()}
    sock.inbox.append(json.dumps(m).encode())
    c.process()


answer(ta_cmd="hello", ta_id=0, msg_type="complete", protocol_version=3)
got = []
ta = c.services(response_cb=lambda ta_id, ev, *a, **k: got.append(ev))
try:
    answer(ta_cmd="services", ta_id=ta, msg_type="notify", service_id=1,
           generation=1, service_props={}, ttl=1, client_id=2)
except proto.ProtocolError:
    pass
else:
    assert 0, got
assert not got
''')

bug("listing-hides-own-orphans", "C22",
    "a listing of services while one of them is an orphan whose owner has "
    "reconnected without republishing it",
    "the orphan is left out of the listing",
    [(SRV, '''                if filter is None or filter.match(service.props()):
''', '''                if service.is_orphan() and service.client_id() in \\
                   self.server.client_connections:
                    continue
                if filter is None or filter.match(service.props()):
''')], '''
from common import *
s, listen = make_server()
a = Peer(s, listen)
a.hello(1)
a.request("publish", service_id=7, generation=1, service_props={}, ttl=60)
a.eof()
b = Peer(s, listen)
b.hello(1)
r = b.request("services")
assert [m["service-id"] for m in r if m["msg-type"] == "notify"] == [7], r
''')

bug("older-subscription-not-completed", "C14",
    "unsubscribing from a subscription whose accept is long gone, with the "
    "transaction ids of the two requests interleaved",
    "the subscription's own transaction is not completed when it is "
    "cancelled from a connection that has a later subscription",
    [(SRV, '''            yield sub_ta.complete()
            yield ta.complete()
''', '''            if len(self.sub_tas) == 0 or \\
               sub_ta.ta_id > max(t.ta_id for t in self.sub_tas.values()):
                yield sub_ta.complete()
            yield ta.complete()
''')], '''
from common import *
s, listen = make_server()
a = Peer(s, listen)
a.hello(1)
t1 = a.send("subscribe", subscription_id=1)
t2 = a.send("subscribe", subscription_id=2)
a.send("unsubscribe", subscription_id=1)
assert [m["msg-type"] for m in a.answers(t1)] == ["accept", "complete"], \\
    a.answers(t1)
''')

bug("disconnect-while-tentative", "C13",
    "a client that has been sent an idle query and whose transport then "
    "fails",
    "tearing the connection down raises an assertion, which leaves the "
    "message handling and stops the server",
    [(SD, '''        self.disconnected_at = time.time()
        self.uninstall_idle_timer()
''', '''        self.disconnected_at = time.time()
        assert self.idle_state == IdleState.ACTIVE or \\
            self.idle_timer is None
        self.uninstall_idle_timer()
''')], '''
from common import *
s, listen = make_server(idle=(4, 10))
a = Peer(s, listen)
a.hello(1)
a.request("track")
clock.t += 6
s.timer_manager.process()
a.run()
a.eof()
assert a.sock.closed
assert s.num_connections() == 0
''')

XCM_STUB = r"""
import atexit, ctypes, importlib.util, os, shutil, subprocess, tempfile
C = r'''
#include <errno.h>
#include <stdbool.h>
#include <stdint.h>
#include <stddef.h>
#include <string.h>
static int fail_, clobber_, nlive; static char data_[70000]; static int len_;
static char sock_;
void stub(int fail, int clobber, const char *d, int n)
{ fail_ = fail; clobber_ = clobber; memcpy(data_, d, n); len_ = n; }
static void *mk(void) { if (fail_) { errno = fail_; return NULL; }
    return &sock_; }
static int rc(int v) { if (fail_) { errno = fail_; return -1; } return v; }
void *xcm_attr_map_create(void) { nlive++; return &nlive; }
void xcm_attr_map_destroy(void *m) { if (m) { nlive--; errno = clobber_; } }
int stub_maps(void) { return nlive; }
void xcm_attr_map_add_bool(void *m, const char *n, bool v) {}
void xcm_attr_map_add_int64(void *m, const char *n, int64_t v) {}
void xcm_attr_map_add_str(void *m, const char *n, const char *v) {}
void *xcm_connect_a(const char *a, const void *m) { return mk(); }
void *xcm_server_a(const char *a, const void *m) { return mk(); }
void *xcm_accept_a(void *s, const void *m) { return mk(); }
int xcm_close(void *s) { return 0; }
int xcm_finish(void *s) { return rc(0); }
int xcm_send(void *s, const void *b, size_t n) { return rc(0); }
int xcm_receive(void *s, void *b, size_t n)
{ if (!fail_) memcpy(b, data_, len_); return rc(len_); }
int xcm_await(void *s, int c) { return rc(0); }
int xcm_fd(void *s) { return rc(3); }
int xcm_want(void *s, int c, int *f, int *e, size_t n) { return rc(0); }
int xcm_set_blocking(void *s, bool v) { return rc(0); }
bool xcm_is_blocking(void *s) { return false; }
int xcm_attr_get(void *s, const char *n, int *t, void *v, size_t c)
{ return rc(0); }
int xcm_attr_set_bool(void *s, const char *n, bool v) { return rc(0); }
int xcm_attr_set_int64(void *s, const char *n, int64_t v) { return rc(0); }
int xcm_attr_set_str(void *s, const char *n, const char *v) { return rc(0); }
'''
d = tempfile.mkdtemp()
atexit.register(shutil.rmtree, d, True)
so = os.path.join(d, "libxcm.so.0")
subprocess.run(["gcc", "-x", "c", "-", "-shared", "-fPIC",
                "-Wl,-soname,libxcm.so.0", "-o", so], input=C.encode(),
               check=True)
lib = ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)
spec = importlib.util.spec_from_file_location("xcm", "paf/xcm.py")
xcm = importlib.util.module_from_spec(spec)
spec.loader.exec_module(xcm)
"""

bug("errno-of-the-cleanup", "C25",
    "a server address that cannot be bound, with a C library in which "
    "releasing memory changes errno",
    "the error reported is that of the cleanup, not of the failed call",
    [("paf/xcm.py", '''        xcm_socket = xcm_server_a_c(addr.encode('utf-8'), attr_map)
''', '''        xcm_socket = xcm_server_a_c(addr.encode('utf-8'), attr_map)
        xcm_attr_map_destroy_c(attr_map)
        attr_map = None
''')], XCM_STUB + '''
import errno
for left in (0, errno.EAGAIN, errno.EINVAL):
    lib.stub(errno.EADDRINUSE, left, b"", 0)
    try:
        xcm.server("tcp:1.2.3.4:5")
    except OSError as e:
        assert e.errno == errno.EADDRINUSE, e
    else:
        assert 0
assert lib.stub_maps() == 0
lib.stub(0, 0, b"", 0)
xcm.server("tcp:1.2.3.4:5").close()
assert lib.stub_maps() == 0
''')

bug("received-up-to-zero", "C25",
    "a peer that sends a message containing a zero byte",
    "only the part of the message before the zero byte is delivered, so "
    "that an ill-formed message may be taken for a well-formed one",
    [("paf/xcm.py", '''        return bytes(buf.raw[:rc])
''', '''        return buf.value[:rc]
''')], XCM_STUB + '''
lib.stub(0, 0, b"", 0)
c = xcm.connect("ux:a")
for m in (b"abc", b"", b"\\0", b"{}\\0x", b"x" * 65534, b"a\\0\\0"):
    lib.stub(0, 0, m, len(m))
    assert c.receive() == m, m
c.close()
''')

bug("attributes-of-the-last-domain", "C26",
    "two domains in one process, of which the first one read has TLS "
    "settings in its file",
    "the second domain's server is connected to with the certificate and "
    "keys of the first",
    [("paf/client.py", '''class ServerConf:
    def __init__(self, addr, proto''', '''class ServerConf:
    attrs = {}

    def __init__(self, addr, proto'''),
     ("paf/client.py", '''        self.proto_version_max = proto_version_max
        self.attrs = {}
''', '''        self.proto_version_max = proto_version_max
''')], '''
from common import *
import os
import tempfile
import shutil
import paf.client as client
made = []


class Made:
    def __init__(self, client_id, server_conf, track, ready_cb):
        made.append(server_conf)


client.Client = Made
d = tempfile.mkdtemp()
try:
    os.environ["PAF_DOMAINS"] = d
    with open(os.path.join(d, "secure"), "w") as f:
        f.write('{"servers": [{"address": "tls:1.2.3.4:5", '
                '"tlsCertificateFile": "/c", "tlsKeyFile": "/k"}]}')
    with open(os.path.join(d, "plain"), "w") as f:
        f.write("# local\\nux:a\\n")
    client.connect("plain")
    client.connect("secure")
    client.connect("plain")
    client.connect("none")
finally:
    shutil.rmtree(d)
assert [c.addr for c in made] == ["ux:a", "tls:1.2.3.4:5", "ux:a", "none"]
assert made[1].attrs == {"tls.cert_file": "/c", "tls.key_file": "/k"}
for i in (0, 2, 3):
    assert made[i].attrs == {}, (i, made[i].attrs)
''')

DAEMON, LOGGING = "paf/daemon.py", "paf/logging.py"

DAEMON_STANDINS = '''
from common import *
import contextlib
import io
import paf.eventloop
import paf.logging
import paf.server
import paf.conf
import paf.daemon as daemon

events = []
fail_at = None
lost = False


class Server:
    def __init__(self, name, sockets, *rest):
        addr = sockets[0].addr
        if addr == fail_at:
            raise OSError("no such address")
        self.addr = addr
        events.append(("made", addr))

    def terminate(self):
        events.append(("terminated", self.addr))

    def close_server_socks(self):
        events.append(("closed", self.addr))


class EventLoop:
    def run(self):
        events.append(("run", None))
        if lost:
            raise OSError("event loop")


def configure(*args, **kwargs):
    events.append(("log", None))


real_configure = paf.logging.configure
paf.server.Server = Server
paf.eventloop.EventLoop = EventLoop
paf.logging.configure = configure


def pafd(*args):
    del events[:]
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            daemon.main(["pafd"] + list(args))
        except SystemExit as e:
            return e.code or 0
    assert 0, "main returned"


def all_of(kind):
    return sorted(a for k, a in events if k == kind)
'''

bug("sockets-left-after-failed-start", "C27",
    "several domains, of which one but the first cannot be instantiated",
    "the servers made before the failing one are not closed",
    [(DAEMON, '''        servers = []
        for domain in conf.domains:
            user = conf.resources.user.resources
            total = conf.resources.total.resources
            server = paf.server.create(domain.name, domain.sockets, user,
                                       total, domain.proto_version_limit,
                                       domain.idle_limit, event_loop)
            servers.append(server)
''', '''        servers = []
        user = conf.resources.user.resources
        total = conf.resources.total.resources
        servers = [paf.server.create(domain.name, domain.sockets, user, total,
                                     domain.proto_version_limit,
                                     domain.idle_limit, event_loop)
                   for domain in conf.domains]
''')], DAEMON_STANDINS + '''
assert pafd("ux:a", "ux:b", "ux:c") == 0
assert all_of("made") == all_of("terminated") == ["ux:a", "ux:b", "ux:c"]
for bad in ("ux:a", "ux:b", "ux:c"):
    fail_at = bad
    assert pafd("ux:a", "ux:b", "ux:c") == 1
    assert all_of("run") == []
    assert set(all_of("made")) <= set(all_of("closed")), events
fail_at, lost = None, True
assert pafd("-m", "ux:a+ux:b", "ux:c") == 1
assert all_of("made") == all_of("closed") == ["ux:a", "ux:c"]
''')

bug("level-of-the-console-only", "C27",
    "a server that logs to a file or the system log only, with a level other "
    "than the default of the logging library",
    "the filter level has no effect unless the console is logged to",
    [(LOGGING, '''    logging.basicConfig(level=filter_level)
    if not console:
        logger.handlers = []
''', '''    if console:
        logging.basicConfig(level=filter_level)
''')], DAEMON_STANDINS + '''
import logging
import os
import shutil
import tempfile
d = tempfile.mkdtemp()
root = logging.getLogger()
try:
    for console in (False, True):
        for i, (level, n) in enumerate(((logging.DEBUG, 4), (logging.INFO, 3),
                                        (logging.ERROR, 1))):
            root.handlers = []
            f = os.path.join(d, "log%d%d" % (console, i))
            with contextlib.redirect_stderr(io.StringIO()):
                real_configure(console=console, log_file=f, syslog=False,
                               filter_level=level)
                c = paf.logging.LogCategory.CORE
                paf.logging.debug("one", c)
                paf.logging.info("two", c)
                paf.logging.warning("three", c)
                root.error("four")
            for h in root.handlers:
                h.close()
            lines = open(f).read().splitlines()
            assert len(lines) == n, (console, level, lines)
finally:
    shutil.rmtree(d)
''')

bug("limit-cleared-by-any-zero", "C27",
    "the option -c given twice, first zero and then a number",
    "a limit given after the option that lifted it is not applied: the server "
    "runs without limit",
    [(DAEMON, '''                clients = int(optval)
                if clients == 0:
''', '''                clients = int(optval)
                if clients == 0 or ('-c', '0') in optlist:
''')], DAEMON_STANDINS + '''
seen = []


def create(name, sockets, user, total, *rest):
    seen.append({k.name: v for k, v in total.items()}["CLIENT"])
    return Server(name, sockets)


paf.server.create = create
for args, want in (((), None), (("-c", "5"), 5), (("-c", "0"), None),
                   (("-c", "5", "-c", "0"), None),
                   (("-c", "0", "-c", "5"), 5), (("-c5", "-c6"), 6),
                   (("-c", "00", "-c", "7"), 7)):
    del seen[:]
    assert pafd(*args, "ux:a", "ux:b") == 0
    assert seen == [want, want], (args, seen)
''')
