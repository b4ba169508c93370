"""Stand-ins for the XCM library, the clock and the event loop, so that the
repository's code (cwd) can be driven without network or waiting."""
import errno
import json
import os
import sys
import time
import types

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True


class XcmError(Exception):
    def __init__(self, no, reason=""):
        Exception.__init__(self, reason)
        self.errno = no


xcm = types.ModuleType("paf.xcm")
xcm.error = XcmError
xcm.SO_RECEIVABLE, xcm.SO_SENDABLE, xcm.SO_ACCEPTABLE = 1, 2, 4
xcm.next_sock = None
xcm.server = lambda addr, attrs=None: xcm.next_sock
xcm.connect = lambda addr, attrs=None: xcm.next_sock
sys.modules["paf.xcm"] = xcm
import paf  # noqa: E402
paf.xcm = xcm


class Clock:
    def __init__(self):
        self.t = 1000.0
        time.time = lambda: self.t


clock = Clock()


class Sock:
    """A connection: inbox is read by the code, outbox is what it sent."""
    def __init__(self, addr="ux:a"):
        self.addr, self.inbox, self.outbox = addr, [], []
        self.block, self.closed, self.target = False, False, None
        self.plan = []

    def get_attr(self, name):
        return self.addr if name == "xcm.remote_addr" else "ux"

    def set_attr(self, name, value):
        pass

    def fileno(self):
        return 5

    def set_target(self, condition):
        self.target = condition

    def receive(self):
        if not self.inbox:
            raise XcmError(errno.EAGAIN)
        return self.inbox.pop(0)

    def send(self, msg):
        if (self.plan.pop(0) if self.plan else self.block):
            raise XcmError(errno.EAGAIN)
        self.outbox.append(json.loads(msg.decode()))

    def finish(self):
        pass

    def close(self):
        self.closed = True


class Listen(Sock):
    def __init__(self):
        Sock.__init__(self)
        self.pending = []

    def accept(self):
        if not self.pending:
            raise XcmError(errno.EAGAIN)
        return self.pending.pop(0)


class Loop:
    def __init__(self):
        self.handlers = {}

    def add(self, source, handler):
        self.handlers[source] = handler

    def remove(self, source):
        del self.handlers[source]


def make_server(user=None, total=None, vmin=2, vmax=3, idle=(4, 30)):
    import paf.server as server
    import paf.sd as sd
    import paf.conf as conf
    listen = xcm.next_sock = Listen()
    s = server.create("d", [conf.SocketConf("ux:x", {})],
                      sd.resources(**(user or {})),
                      sd.resources(**(total or {})),
                      conf.ProtoVersionLimitConf(vmin, vmax),
                      sd.IdleLimit(*idle), Loop())
    return s, listen


class Peer:
    """A client as seen from the wire."""
    def __init__(self, server, listen, addr="ux:a"):
        self.server = server
        self.sock = Sock(addr)
        self.ta = 0
        listen.pending.append(self.sock)
        server.sock_activate()
        conns = [c for c in server.clientless_connections
                 if c.conn_sock is self.sock]
        self.conn = conns[0] if conns else None

    def run(self):
        while not self.sock.closed:
            n = len(self.sock.inbox), len(self.sock.outbox)
            self.conn.activate()
            if n == (len(self.sock.inbox), len(self.sock.outbox)):
                break

    def send(self, cmd, **fields):
        self.ta += 1
        m = {"ta-cmd": cmd, "ta-id": self.ta, "msg-type": "request"}
        m.update({k.replace("_", "-"): v for k, v in fields.items()})
        self.sock.inbox.append(json.dumps(m).encode())
        self.run()
        return self.ta

    def answers(self, ta):
        return [m for m in self.sock.outbox if m["ta-id"] == ta]

    def request(self, cmd, **fields):
        return self.answers(self.send(cmd, **fields))

    def hello(self, client_id, lo=2, hi=3):
        return self.request("hello", client_id=client_id,
                            protocol_minimum_version=lo,
                            protocol_maximum_version=hi)

    def eof(self):
        self.sock.inbox.append(b"")
        self.run()


def make_sd(user=None, total=None):
    import paf.sd as sd
    import paf.timer as timer
    tm = timer.TimerManager()
    s = sd.ServiceDiscovery("d", tm, sd.resources(**(user or {})),
                            sd.resources(**(total or {})))
    return s, tm, sd


class Events:
    def __init__(self):
        self.all = []

    def __call__(self, sub_id, match_type, service):
        self.all.append((sub_id, match_type.name, service.service_id))
