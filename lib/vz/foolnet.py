"""
Real Foolscap connections between two ends in one process: real brokers, real
serialisation, real schema enforcement at both ends; only the TCP and TLS are
replaced, by a queue of bytes under the scenario's control.

The brokers have the options which a Tahoe-LAFS node gives its tubs.
"""

import foolscap.eventual
from foolscap import broker
from foolscap.referenceable import TubRef
from foolscap.remoteinterface import getRemoteInterface
from twisted.internet.error import ConnectionDone, ConnectionLost
from twisted.internet.task import Clock
from twisted.python.failure import Failure

from .core import Violated


class _Sub:
    def __init__(self, tubid):
        self.tubid = tubid

    def getTubID(self):
        return self.tubid


class End:
    """One end of a connection."""

    connected = True

    def __init__(self, net, name, tubid):
        self.net, self.name = net, name
        self.broker = broker.Broker(TubRef(tubid, ["tcp:127.0.0.1:1"]))
        # What allmydata.node sets on every tub.
        self.broker._expose_remote_exception_types = False
        self.broker.transport = self
        self.peer = None
        self.out = []

    # transport

    def write(self, data):
        if self.connected:
            self.out.append(data)

    def writeSequence(self, seq):
        for d in seq:
            self.write(d)

    def loseConnection(self, why=None):
        self.net.drop(why or Failure(ConnectionDone()))

    abortConnection = loseConnection

    def getPeer(self):
        return broker.LoopbackAddress()

    getHost = getPeer


class Link:
    """A connection; ``client`` calls ``server``."""

    def __init__(self, rng, client_tub="c" * 32, server_tub="s" * 32, beside=None):
        """``beside``: another link, to share its event queue with"""
        self.rng = rng
        self.clock = Clock() if beside is None else beside.clock
        self.up = True
        self.bytes = 0
        self.on_bytes = None
        self._real = foolscap.eventual.reactor
        self.owner = beside is None
        if self.owner:
            foolscap.eventual.reactor = self.clock
            q = foolscap.eventual._theSimpleQueue
            q._events, q._timer = [], None
        self.client = End(self, "client", server_tub)
        self.server = End(self, "server", client_tub)
        self.client.peer, self.server.peer = self.server, self.client
        self.server.broker.connectionMade()
        self.client.broker.connectionMade()

    def close(self):
        if not self.owner:
            return
        foolscap.eventual.reactor = self._real
        q = foolscap.eventual._theSimpleQueue
        q._events, q._timer = [], None

    def reference(self, target, interface_name=None, url=None):
        """The client's reference to this object of the server."""
        tracker = self.server.broker.getTrackerForMyReference(target.processUniqueID(), target)
        tracker.send()
        theirs = self.client.broker.getTrackerForYourReference(tracker.clid, interface_name, url)
        return theirs.getRef()

    def turn(self):
        """Do something which is due; False if there is nothing."""
        busy = [e for e in (self.client, self.server) if e.out]
        if self.clock.calls and (not busy or self.rng.random() < 0.5):
            due = [c for c in self.clock.calls if c.getTime() <= self.clock.seconds()]
            if due:
                self.clock.advance(0)
                return True
        if not busy:
            return False
        e = self.rng.choice(busy)
        data = e.out.pop(0)
        if len(data) > 1 and self.rng.random() < 0.3:
            n = self.rng.randrange(1, len(data))
            e.out.insert(0, data[n:])
            data = data[:n]
        self.bytes += len(data)
        if self.on_bytes is not None and self.on_bytes(e, data):
            return True
        if self.up:
            e.peer.broker.dataReceived(data)
        return True

    def settle(self, limit=200000):
        n = 0
        while self.turn():
            n += 1
            if n > limit:
                raise Violated("the connection never becomes quiet")
        return n

    def drop(self, why=None):
        if not self.up:
            return
        self.up = False
        why = why or Failure(ConnectionLost())
        for e in (self.client, self.server):
            e.connected = False
            e.out = []
        for e in (self.client, self.server):
            self.clock.callLater(0, e.broker.connectionLost, why)
