"""The plugin on virtual networks: helpers for whole client nodes."""

from twisted.internet import task

from _zkapauthorizer import NAME
from _zkapauthorizer._plugin import ZKAPAuthorizer

from . import redeem, webapi


class Net(webapi.Net):
    """Remembers which names were looked up and what was requested."""

    def __init__(self, rng):
        webapi.Net.__init__(self, rng)
        self.names = []
        self.requests = []
        self.received = self.requests.append
        self.advance(1_600_000_000 + rng.randrange(10 ** 7))

    def resolveHostName(self, receiver, hostName, portNumber=0, **kw):
        self.names.append((hostName, portNumber))
        return webapi.Net.resolveHostName(self, receiver, hostName, portNumber, **kw)


def make_plugin(reactor, connections=None):
    def connect(path, isolation_level=None):
        conn = redeem.faulty_connect(path)
        if connections is not None:
            connections.append(conn)
        return conn

    return ZKAPAuthorizer(name=NAME, reactor=reactor, get_tahoe_client=lambda reactor, config: None, connect=connect)


class cooperating:
    """The bodies of requests are produced on the virtual clock."""

    def __init__(self, net):
        self.net = net

    def __enter__(self):
        self.real = task._theCooperator
        task._theCooperator = task.Cooperator(scheduler=lambda f: self.net.callLater(0.0001, f))

    def __exit__(self, *exc):
        task._theCooperator = self.real
