"""C16: no client can break the server for others.

A well-behaved client works next to peers that send generated bytes: valid
requests, mutated ones, incomplete ones and noise, split anywhere, and that
leave at any time in any manner.  An independent parser of the protocol says
which of the bytes are complete commits that the peer may make.
"""
import fcntl
import os
import select
import socket
import struct
import termios
import time

from hypothesis import strategies as st

from .. import gen
from ..core import Facet, HarnessError, Violation, check, expect_eq
from ..storages import FILES, Server, open_storage
import durus.storage_server
from durus.client_storage import ClientStorage
from durus.error import ReadConflictError
from durus.serialize import pack_record
from durus.utils import int4_to_str, int8_to_str, str_to_int8

PROTOCOL = b'\0\0\0\1'
ROOT = int8_to_str(0)
GONE = (KeyError, ReadConflictError)
PORT = [0]


def tcp_address():
    """Every process has its own loopback address."""
    pid = os.getpid()
    PORT[0] = (PORT[0] + 1) % 20000
    return ('127.%d.%d.%d' % (1 + pid % 250, pid // 250 % 250,
                              1 + pid // 62500 % 250), 20000 + PORT[0])


def parse(data):
    """-> (events, how): what these bytes ask for, and 'ok', 'dead' or
    'incomplete' for the end of them."""
    events = []
    i = 0
    n = len(data)

    while i < n:
        command = data[i:i + 1]
        start = i
        i += 1
        if command in (b'N', b'S', b'P', b'Q'):
            events.append((command, start))
            continue
        if command not in (b'M', b'L', b'C', b'V', b'B'):
            return events, 'dead'
        size = {b'M': 1, b'L': 8, b'C': 4, b'V': 4, b'B': 4}[command]
        if i + size > n:
            events.append((b'?', start))
            return events, 'incomplete'
        argument = data[i:i + size]
        i += size
        if command == b'V':
            events.append((command, start))
            if argument != PROTOCOL:
                return events, 'dead'
        elif command in (b'B', b'C'):
            size = struct.unpack('>I', argument)[0]
            if command == b'B':
                size *= 8
            if i + size > n:
                events.append((b'?', start))
                return events, 'incomplete'
            body = data[i:i + size]
            i += size
            if command == b'C':
                batch = parse_commit(body)
                if batch is None:
                    events.append((b'?', start))
                    return events, 'dead'
                events.append((b'C', start, batch))
            else:
                events.append((command, start))
        else:
            events.append((command, start))
    return events, 'ok'


def parse_commit(data):
    """-> [(oid, record)] or None"""
    result = []
    while data:
        if len(data) < 4:
            return None
        size = struct.unpack('>I', data[:4])[0]
        entry = data[4:4 + size]
        if len(entry) < size or size < 20:
            return None
        oid, record = entry[:8], entry[8:]
        length = struct.unpack('>I', record[8:12])[0]
        if (record[:8] != oid or 12 + length > len(record) or
                (len(record) - 12 - length) % 8):
            return None
        result.append((oid, record))
        data = data[4 + size:]
    return result


def references(record):
    length = struct.unpack('>I', record[8:12])[0]
    refs = record[12 + length:]
    return [refs[i:i + 8] for i in range(0, len(refs), 8)]


class Peer(object):

    def __init__(self, sock):
        self.s = sock
        self.own = []
        self.received = b''
        self.eof = False


class World(object):

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.kind = case['storage']
        self.path = ctx.path('db')
        address = tcp_address() if case['tcp'] else ctx.path('sock')
        self.server = Server(lambda: open_storage(self.kind, self.path),
                             address)
        self.address = address
        ctx.on_exit(self.stop)
        durus.storage_server.TIMEOUT = 20
        self.good = self.connect_good()
        expect_eq(self.good.new_oid(), ROOT, 'first id')
        self.other = self.connect_good()
        self.other.oid_pool_size = 3
        self.reserved = set([self.other.new_oid()])
        self.reserved.update(self.other.oid_pool)
        self.state = {}
        self.maybe_gone = set()
        self.gone = set()
        self.packs = False
        self.stamp = 0
        self.peers = {}
        self.written = set()
        self.op_good([[i % 5, 9 + i] for i in range(case['objects'])])

    def connect_good(self):
        client = ClientStorage(address=self.address)
        self.ctx.on_exit(client.s.close)
        client.s.settimeout(60)
        client.oid_pool_size = 8
        return client

    def stop(self):
        for peer in self.peers.values():
            peer.s.close()
        durus.storage_server.TIMEOUT = 10
        self.server.stop()

    def alive(self):
        self.server.check()
        check(self.server.alive(), 'the server has ended')

    # -- the well-behaved client

    def record(self, oid, size, refs=(), data=None):
        self.stamp += 1
        if data is None:
            data = (b'%d:' % self.stamp) + (
                b'\nNode\n' if self.stamp % 3 == 0 else b'') + b'x' * size
        return pack_record(oid, data, b''.join(refs))

    def barrier(self, rounds, drain=None):
        """Until the server has handled as many more requests of everybody."""
        s = self.good.s
        for i in range(rounds):
            s.sendall(b'V' + PROTOCOL)
            got = b''
            while len(got) < 4:
                watch = [s]
                if drain is not None and not drain.eof:
                    watch.append(drain.s)
                r, w, e = select.select(watch, [], [], 60)
                if not r:
                    self.alive()
                    raise Violation('the server does not answer')
                if drain is not None and drain.s in r:
                    self.receive(drain)
                if s in r:
                    try:
                        more = s.recv(4 - len(got))
                    except OSError:
                        more = b''
                    if not more:
                        self.alive()
                        raise Violation('a well-behaved client was '
                                        'disconnected')
                    got += more
            expect_eq(got, PROTOCOL, 'answer to a well-behaved client')

    def receive(self, peer):
        try:
            data = peer.s.recv(100000)
        except OSError:
            data = b''
        if data:
            peer.received = (peer.received + data)[-64:]
        else:
            peer.eof = True

    def call(self, func, *args):
        try:
            return func(*args)
        except (OSError, struct.error) as e:
            self.alive()
            raise Violation('a well-behaved client gets %s: %s' % (
                type(e).__name__, e))

    def op_good(self, items):
        batch = {}
        # What a pack may be removing is left alone.
        live = sorted(set(self.state) - self.maybe_gone)
        new = []
        for which, size in items:
            if which < 3 and live:
                oid = live[which % len(live)]
            else:
                oid = self.call(self.good.new_oid)
                check(oid not in self.state and oid not in self.reserved,
                      'new id %r is in use', oid)
                for peer in self.peers.values():
                    check(oid not in peer.own,
                          'id %r was given to two clients', oid)
                new.append(oid)
            if oid != ROOT:
                batch[oid] = self.record(oid, size)
        everything = sorted(set(live + new) - set([ROOT]) - self.gone)
        batch[ROOT] = self.record(ROOT, 3, everything)
        if len(items) % 2:
            self.sync()
        self.good.begin()
        for oid, record in batch.items():
            self.good.store(oid, record)
        self.call(self.good.end, self.told)
        self.written = set()
        self.state.update(batch)
        self.gone.difference_update(batch)
        self.note_unreachable()

    def op_pack(self):
        self.packs = True
        self.note_unreachable()
        self.call(self.good.pack)

    def note_unreachable(self):
        if self.packs:
            seen, todo = set(), [ROOT]
            while todo:
                oid = todo.pop()
                if oid not in seen and oid in self.state:
                    seen.add(oid)
                    todo.extend(references(self.state[oid]))
            self.maybe_gone.update(set(self.state) - seen)

    def sync(self):
        self.told(self.call(self.good.sync))

    def told(self, oids):
        changed = set(oids)
        missing = self.written - changed - self.maybe_gone
        check(not missing, 'a well-behaved client is not told of changes '
              'of %r', sorted(missing))
        extra = changed - self.written - self.maybe_gone - self.gone
        check(not extra, 'a well-behaved client is told of changes of %r',
              sorted(extra))
        self.written = set()

    def actual(self, oids):
        result = {}
        for oid in oids:
            try:
                result[oid] = self.call(self.good.load, oid)
            except GONE:
                result[oid] = None
        return result

    def verify(self, outcomes=None):
        """outcomes: the states that are acceptable now."""
        outcomes = outcomes or [self.state]
        written = set()
        for state in outcomes:
            for oid in state:
                if state[oid] != outcomes[0].get(oid):
                    written.add(oid)
        interest = set()
        for state in outcomes:
            interest.update(state)
        # Nobody else is active, so that this is one moment.
        before = set(self.written)
        oids = set(self.call(self.good.sync))
        actual = self.actual(sorted(interest))
        if self.packs:
            # a pack may have ended just between
            oids.update(self.call(self.good.sync))
            actual = self.actual(sorted(interest))
        for state in outcomes:
            if all(actual[oid] == state.get(oid) or
                   actual[oid] is None and oid in
                   self.maybe_gone | self.gone for oid in interest):
                break
        else:
            for oid in sorted(interest):
                if actual[oid] not in [s.get(oid) for s in outcomes]:
                    raise Violation(
                        'record of %r: got %.60r, expected %s' % (
                            oid, actual[oid],
                            ['%.60r' % s.get(oid) for s in outcomes]))
            raise Violation('the stored data is a mixture of states')
        changed = set(oid for oid in state
                      if state[oid] != self.state.get(oid)) | before
        missing = changed - oids - self.maybe_gone - self.gone
        check(not missing, 'a well-behaved client is not told of changes '
              'of %r', sorted(missing))
        self.written = set()
        self.state = dict(state)
        for oid in interest:
            if actual[oid] is None and oid in self.state:
                self.gone.add(oid)
                del self.state[oid]
        self.note_unreachable()
        return outcomes.index(state)

    # -- the peers

    def connect(self, rounds=3, timeout=20):
        durus.storage_server.TIMEOUT = timeout
        s = self.server.socket()
        s.settimeout(30)
        s.connect(self.address)
        if self.case['tcp']:
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.barrier(rounds) # until it is accepted
        durus.storage_server.TIMEOUT = 20
        return Peer(s)

    def peer(self, slot):
        if slot not in self.peers:
            self.peers[slot] = self.connect()
        return self.peers[slot]

    def close(self, slot, how=0):
        peer = self.peers.pop(slot, None)
        if peer is not None:
            self.finish(peer, how)

    def finish(self, peer, how):
        if how == 1:
            peer.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                              struct.pack('ii', 1, 0))
        elif how == 2:
            try:
                peer.s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
        peer.s.close()

    def op_close(self, slot, how):
        self.close(slot % 3, how)

    def op_visit(self, n, how):
        """Connections that are dropped at once."""
        for i in range(n):
            self.finish(self.connect(0), how)
        self.barrier(n + 2)

    def op_alloc(self, slot, n):
        """A peer that reserves ids like everybody."""
        slot %= 3
        peer = self.peer(slot)
        self.call(peer.s.sendall, b'M' + bytes([n]))
        data = b''
        while len(data) < 8 * n:
            more = self.call(peer.s.recv, 8 * n - len(data))
            if not more:
                self.alive()
                raise Violation('a client that behaves is disconnected')
            data += more
        oids = [data[i:i + 8] for i in range(0, len(data), 8)]
        check(len(set(oids)) == n, 'ids given twice')
        for oid in oids:
            check(oid not in self.state and oid not in self.reserved and
                  oid not in self.good.oid_pool, 'new id %r is in use', oid)
            for p in self.peers.values():
                check(oid not in p.own, 'new id %r is in use', oid)
        peer.own.extend(oids)

    def oid(self, peer, spec):
        category, k = spec
        live = sorted(self.state)
        if category == 0:
            return live[k % len(live)]
        if category == 1:
            return ROOT
        if category == 2 and peer.own:
            return peer.own[k % len(peer.own)]
        if category == 3:
            pool = sorted(self.reserved)
            return pool[k % len(pool)]
        if category == 4 and self.good.oid_pool:
            return self.good.oid_pool[k % len(self.good.oid_pool)]
        if category == 5:
            return int8_to_str([2 ** 63, 2 ** 64 - 1, 2 ** 63 - 1, 2 ** 62,
                                2 ** 32][k % 5])
        return int8_to_str(10 ** 6 + k)

    def token(self, peer, token):
        kind = token[0]
        if kind == 'N':
            return b'N'
        if kind == 'M':
            return b'M' + bytes([token[1]])
        if kind == 'L':
            return b'L' + self.oid(peer, token[1])
        if kind == 'V':
            return b'V' + PROTOCOL
        if kind == 'W':
            return b'V' + bytes(token[1])
        if kind == 'B':
            oids = [self.oid(peer, o) for o in token[1]] * token[2]
            n = max(0, len(oids) + token[3]) % 2 ** 32
            return b'B' + int4_to_str(n) + b''.join(oids)
        if kind == 'C':
            return b'C' + self.commit(peer, token[1], token[2], token[3])
        if kind == 'bytes':
            return token[1]
        return kind.encode('latin1')

    def commit(self, peer, items, delta, cut):
        entries = []
        for oid_spec, size, refs, mutation in items:
            oid = self.oid(peer, oid_spec)
            if refs == 'all':
                targets = sorted(set(self.state) - set([ROOT]))
            else:
                targets = [self.oid(peer, r) for r in refs]
            if oid == ROOT and refs != 'all' and mutation != 9:
                targets = sorted(set(self.state) - set([ROOT])) + targets
            record = self.record(oid, size, targets)
            length = 8 + len(record)
            if mutation == 1:
                record = record[:-1]
                length -= 1
            elif mutation == 2:
                record = int8_to_str(77) + record[8:]
            elif mutation == 3:
                record = record[:8] + int4_to_str(
                    len(record) + size) + record[12:]
            elif mutation == 4:
                length += 1
            elif mutation == 5:
                length = max(0, length - 8)
            elif mutation == 6:
                record += b'12345'
                length += 5
            elif mutation == 7:
                record = record[:11]
                length = 19
            elif mutation == 8:
                record = record[:8] + int4_to_str(
                    2 ** 32 - 1 - size) + record[12:]
            entries.append(int4_to_str(length) + oid + record)
        data = b''.join(entries)
        size = len(data) + delta
        if cut:
            data = data[:-cut]
        return int4_to_str(size % 2 ** 32) + data

    def op_peer(self, slot, tokens, mutation, chunks, ending):
        slot %= 3
        hang = ending in ('hang', 'deaf')
        if hang:
            self.close(slot)
            self.peers[slot] = self.connect(timeout=0.03)
        peer = self.peer(slot)
        data = bytearray(b''.join(self.token(peer, t) for t in tokens))
        for kind, position, value in mutation:
            position %= len(data) + 1
            if kind == 0:
                data[position:position + 1] = bytes([value])
            elif kind == 1:
                data[position:position] = bytes([value] * (1 + value % 9))
            elif kind == 2:
                del data[position:position + 1 + value % 9]
            elif kind == 3:
                del data[position:]
            else:
                data += data[position:]
        while True:
            events, how = parse(bytes(data))
            for event in events:
                if event[0] == b'Q':
                    data[event[1]] = ord('X')
                    break
            else:
                break
        data = bytes(data)
        if how == 'incomplete' and ending == 'keep':
            ending = 'close'
        deaf = ending == 'deaf'
        self.ctx.label('stream-' + how)
        self.ctx.label(ending)
        # what may come of it
        rush = ending in ('rush', 'resetrush') or hang or (
            how == 'incomplete' and ending in ('close', 'reset'))
        outcomes = [dict(self.state)]
        state = dict(self.state)
        certain = True
        dead = how != 'ok'
        for event in events:
            if event[0] == b'P':
                self.packs = True
                self.note_unreachable()
            if event[0] != b'C' or not event[2]:
                continue
            verdict = self.may(peer, event[2])
            self.ctx.label('commit-' + verdict)
            if verdict == 'no':
                dead = True
                break
            state = dict(state)
            for oid, record in event[2]:
                state[oid] = record
            if rush or verdict == 'maybe' or not certain:
                outcomes.append(state)
                certain = False
            else:
                outcomes = [state]
        self.note_all(outcomes)
        # send it
        try:
            i = 0
            n = 0
            while i < len(data):
                size = chunks[n % len(chunks)]
                if size > 3000:
                    size = len(data)
                n += 1
                if len(data) > 3000:
                    size = max(size, len(data) // 20)
                self.transmit(peer, data[i:i + size], not deaf)
                i += size
            self.delivered(peer, not deaf)
        except OSError:
            pass # The server may have dropped it.
        if ending in ('close', 'rush'):
            if ending == 'close' and how != 'incomplete':
                self.barrier(len(events) + 2, peer)
            self.close(slot)
        elif ending in ('reset', 'resetrush'):
            if ending == 'reset' and how != 'incomplete':
                self.barrier(len(events) + 2, peer)
            self.close(slot, 1)
        elif ending == 'shutdown':
            if how != 'incomplete':
                self.barrier(len(events) + 2, peer)
            try:
                peer.s.shutdown(socket.SHUT_WR)
            except OSError:
                pass
        self.barrier(len(events) + 3, None if deaf or ending not in (
            'keep', 'shutdown', 'hang') else peer)
        number = self.verify(outcomes)
        if not certain:
            dead = True # perhaps
        if ending == 'keep' and not dead:
            # It did nothing wrong.
            self.settle(peer)
            check(not peer.eof, 'a client that behaves is disconnected')
            for event in events:
                if event[0] == b'C':
                    for oid, record in event[2]:
                        if oid in peer.own:
                            peer.own.remove(oid)
        else:
            self.close(slot)
            self.barrier(2)
        self.alive()

    def note_all(self, outcomes):
        saved = self.state
        for state in outcomes:
            self.state = state
            self.note_unreachable()
        self.state = saved

    def transmit(self, peer, data, drain):
        while data:
            r, w, e = select.select([peer.s] if drain and not peer.eof else
                                    [], [peer.s], [], 30)
            if not r and not w:
                self.alive()
                raise Violation('the server does not read')
            if r:
                self.receive(peer)
            if w:
                peer.s.setblocking(False)
                try:
                    data = data[peer.s.send(data):]
                except BlockingIOError:
                    pass
                finally:
                    peer.s.settimeout(30)

    def delivered(self, peer, drain):
        """Wait until everything has arrived at the server."""
        limit = time.time() + 5
        while self.case['tcp'] and time.time() < limit:
            left = fcntl.ioctl(peer.s, termios.TIOCOUTQ, bytes(4))
            if left == bytes(4) or peer.eof:
                break
            if drain:
                r, w, e = select.select([peer.s], [], [], 0.0002)
                if r:
                    self.receive(peer)
            else:
                time.sleep(0.0002)

    def settle(self, peer):
        """Everything has been answered."""
        while True:
            r, w, e = select.select([peer.s], [], [], 0)
            if not r or peer.eof:
                break
            self.receive(peer)
        if not peer.eof:
            peer.received = b''
            self.transmit(peer, b'V' + PROTOCOL, True)
            while not peer.eof:
                done = peer.received[-4:] == PROTOCOL
                r, w, e = select.select([peer.s], [], [],
                                        0.001 if done else 30)
                if done and not r:
                    break
                check(r, 'a client that behaves gets no answer')
                self.receive(peer)

    def may(self, peer, batch):
        others = set(self.reserved) | set(self.good.oid_pool)
        for p in self.peers.values():
            if p is not peer:
                others.update(p.own)
        verdict = 'yes'
        for oid, record in batch:
            if oid in others:
                return 'no'
            if oid not in peer.own and (
                    oid not in self.state or oid in self.maybe_gone):
                verdict = 'maybe'
        return verdict

    def finish_all(self):
        for slot in list(self.peers):
            self.close(slot)
        self.barrier(3)
        self.verify()
        if self.kind in FILES:
            self.server.stop()
            storage = open_storage(self.kind, self.path)
            try:
                for oid, record in sorted(self.state.items()):
                    try:
                        found = storage.load(oid)
                    except GONE:
                        found = None
                    if found is None and oid in self.maybe_gone:
                        continue
                    expect_eq(found, record, 'record of %r after reopening' %
                              oid)
            finally:
                storage.close()


def run(case, ctx):
    world = World(case, ctx)
    for op in case['ops']:
        getattr(world, 'op_' + op[0])(*op[1:])
    world.finish_all()
    ctx.mark(any(op[0] == 'peer' for op in case['ops']))


def tokens():
    k = gen.small(9)
    oid = st.tuples(st.sampled_from([0, 0, 0, 1, 2, 2, 2, 3, 4, 5, 6]),
                    k).map(list)
    refs = st.one_of(st.just('all'), st.lists(oid, max_size=3))
    mutation = st.one_of(st.just(0), st.just(0), st.just(0), st.just(0),
                         gen.small(9))
    item = st.tuples(oid, st.sampled_from([0, 1, 8, 100, 5000, 70000]),
                     refs, mutation).map(list)
    commit = gen.op('C', st.lists(item, max_size=4), st.sampled_from(
        [0] * 8 + [1, -1, -8, 4, 2 ** 31]), st.sampled_from([0] * 8 + [1, 8]))
    single = st.one_of(
        gen.op('N'), gen.op('M', st.integers(0, 255)), gen.op('L', oid),
        gen.op('S'), gen.op('P'), gen.op('V'),
        gen.op('W', st.binary(min_size=4, max_size=4)),
        gen.op('B', st.lists(oid, max_size=4), st.sampled_from([1, 1, 300]),
               st.sampled_from([0, 0, 0, 1, -1, 2 ** 28, 2 ** 31])),
        gen.op('bytes', st.binary(max_size=20)),
        gen.op('Q'), gen.op('.'), gen.op('Z'))
    harmless = st.one_of(gen.op('N'), gen.op('L', oid), gen.op('S'),
                         gen.op('V'), gen.op('P'))
    plain = st.tuples(st.tuples(st.sampled_from([0, 0, 1, 2]), k).map(list),
                      st.sampled_from([0, 8, 5000]), st.just('all'),
                      st.just(0)).map(list)
    proper = gen.op('C', st.lists(plain, min_size=1, max_size=3), st.just(0),
                    st.just(0))
    kinds = [proper, proper, proper, commit, commit, harmless, single]
    return st.lists(gen.small(len(kinds) - 1).flatmap(lambda i: kinds[i]),
                    min_size=1, max_size=5)


def strategy():
    mutation = gen.small(3).flatmap(lambda i: st.just([]) if i else st.lists(
        st.tuples(gen.small(4), st.one_of(gen.small(30), gen.small(100000)),
                  gen.small(255)).map(list), min_size=1, max_size=3))
    chunks = st.one_of(st.just([10 ** 6]), st.just([1]),
                       st.lists(st.integers(1, 40), min_size=1, max_size=4))
    ending = st.sampled_from(
        ['keep'] * 14 + ['close', 'reset', 'shutdown', 'rush', 'rush',
                        'resetrush'] + ['close', 'reset', 'shutdown'] +
        ['hang', 'deaf'])
    choices = [
        (8, gen.op('peer', gen.small(2), tokens(), mutation, chunks, ending)),
        (2, gen.op('alloc', gen.small(2), st.integers(1, 5))),
        (2, gen.op('good', st.lists(st.tuples(
            gen.small(5), st.sampled_from([0, 10, 3000])).map(list),
            max_size=3))),
        (1, gen.op('pack')),
        (1, gen.op('close', gen.small(2), gen.small(2))),
        (1, gen.op('visit', st.integers(1, 4), gen.small(2)))]
    return gen.record(
        storage=st.sampled_from(['file', 'file', 'file2', 'sqlite', 'memory']),
        tcp=st.booleans(), objects=st.integers(1, 5),
        ops=gen.sized(gen.ops(*choices, max_size=5),
                      gen.ops(*choices, min_size=3, max_size=12)))


FACETS = [
    Facet('hostile', strategy, run, quick=3600, thorough=120000,
          rule='a server (over a file system or a TCP socket), well-behaved '
          'clients, and up to three peers that send valid, mutated, '
          'incomplete or random bytes in any pieces and leave in any manner; '
          'non-trivial when some peer sent something'),
]
