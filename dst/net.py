"""
Simulated kernel: file descriptors, stream / datagram sockets, pipes, epoll, child processes.

Semantics follow Linux.  Delays, short reads / writes, spurious `EAGAIN`, resets, refused connections, packet loss,
duplication and reordering are decided by the simulation's network PRNG and the run's parameters.
"""
import os, sys, socket, selectors, select, errno, io, stat, subprocess, math
from collections import deque

from . import sim as S

FD_BASE = 10000

real_socket = socket.socket
real_socketpair = socket.socketpair
real_os = {name: getattr(os, name) for name in ('read', 'write', 'close', 'set_blocking', 'get_blocking', 'fstat')}
RealPopen = subprocess.Popen

AF_UNIX, AF_INET, AF_INET6 = socket.AF_UNIX, socket.AF_INET, socket.AF_INET6
STREAM, DGRAM = socket.SOCK_STREAM, socket.SOCK_DGRAM


def oserror(code, text=None):
    return OSError(code, text or os.strerror(code))


class Net:
    """The kernel of one simulation."""

    def __init__(self, sim):
        self.sim = sim
        self.rng = sim.netr
        p = sim.params
        self.p = p
        self.fds = {}
        self.epolls = []
        self.listeners = {}         # (ip, port) -> KSock | callable(conn_end)
        self.unix_listeners = {}
        self.udp = {}               # (ip, port) -> KSock | callable(data, source, reply)
        self.next_port = 40000
        self.conns = []
        self.all_socks = []
        self.delay_min = p.get('delay_min', 0.0001)
        self.delay_max = p.get('delay_max', 0.02)
        self.cap = p.get('cap', 65536)
        self.p_eagain = p.get('eagain', 0.0)
        self.p_short = p.get('short', 0.0)
        self.p_segment = p.get('segment', 0.0)
        self.fd_limit = p.get('fd_limit', None)
        self.accept_faults = p.get('accept_fault', 0.0)
        self.opened = 0
        self.gc_closed = []
        self.pid = 20000
        self.procs = []

    def alloc(self, obj):
        fds = self.fds
        if self.fd_limit is not None and len(fds) >= self.fd_limit:
            self.sim.fault('emfile')
            raise oserror(errno.EMFILE)
        fd = FD_BASE
        while fd in fds:
            fd += 1
        fds[fd] = obj
        obj.fd = fd
        self.opened += 1
        return fd

    def close_fd(self, fd):
        obj = self.fds.pop(fd, None)
        if obj is None:
            raise oserror(errno.EBADF)
        for epoll in self.epolls:
            epoll.reg.pop(fd, None)
        obj.fd = -1
        obj.on_close()

    def port(self):
        self.next_port += 1
        return self.next_port

    def raw_connect(self, address, on_connected):
        """A raw client: `on_connected(end)` once connected, `on_connected(None)` if refused. -> its end"""
        end = End(self, f'raw{len(self.conns)}')
        end.family = AF_INET
        end.address = ('127.0.0.1', self.port())
        end.peer_address = address
        end.state = 'connecting'
        end.callback = lambda end, kind, data: None

        def arrive():
            SimSocket._connected(end, 'ok')
            report()

        def report():
            if end.state == 'connecting':
                # the queue of the listener is full, it was tried again just now
                self.sim.after(1.0, report)
            else:
                on_connected(end if end.state == 'connected' else None)
        self.sim.after(2 * self.delay(), arrive)
        return end

    def delay(self):
        a = self.delay_min
        b = self.delay_max
        if b <= a:
            return a
        # mostly short, sometimes long
        r = self.rng.random()
        return a + (b - a) * r * r


class KObj:
    fd = -1

    def readable(self):
        return False

    def writable(self):
        return False

    def on_close(self):
        pass


class End(KObj):
    """One end of a stream connection (also used for pipes)."""
    dead = False

    def __init__(self, net, name, local=False):
        self.net = net
        self.name = name
        self.peer = None
        self.local = local          # no delay, no faults
        self.rx = bytearray()
        self.rx_eof = False
        self.err = 0
        self.rst = False            # reset arrived (or was sent by us)
        self.shut_wr = False
        self.shut_rd = False
        self.closed = False
        self.state = 'new'          # new, connecting, connected, failed, listening
        self.inflight = 0           # bytes written here and not read by the peer's application yet
        self.last = 0.0             # last delivery time of this direction
        self.cap = net.cap
        self.address = None
        self.peer_address = None
        self.family = AF_INET
        self.backlog = deque()
        self.callback = None        # harness side: callback(end, kind, data)
        self.stalled_until = 0.0
        self.sent_total = 0
        self.recv_total = 0
        self.read_limit = None      # raw peers which stop reading: bytes stay in rx
        self.eagain_run = 0
        self.blackhole = False      # everything sent from here on is lost (host died)
        self.pause_rx = False

    # -- application side
    def readable(self):
        if self.state == 'listening':
            return bool(self.backlog)
        return bool(self.rx) or self.rx_eof or bool(self.err) or self.rst or self.shut_rd

    def writable(self):
        if self.state == 'connected':
            return self.rst or bool(self.err) or self.shut_wr or self.inflight < self.cap
        return self.state == 'failed'

    def events(self):
        value = 0
        if self.state == 'new':
            return select.EPOLLHUP | select.EPOLLOUT
        if self.readable():
            value |= select.EPOLLIN
        if self.writable():
            value |= select.EPOLLOUT
        if self.rst or (self.rx_eof and self.shut_wr):
            value |= select.EPOLLHUP
        if self.err:
            value |= select.EPOLLERR
        return value

    def recv(self, n):
        net = self.net
        if self.state == 'listening' or self.state == 'new':
            raise oserror(errno.ENOTCONN)
        if self.state == 'connecting':
            raise oserror(errno.EAGAIN)
        rx = self.rx
        if rx:
            if not self.local:
                if self.spurious():
                    raise oserror(errno.EAGAIN)
                if net.p_short and net.rng.random() < net.p_short and len(rx) > 1:
                    n = min(n, 1 + net.rng.randrange(len(rx)))
                    net.sim.fault('short_read')
            data = bytes(rx[:n])
            del rx[:n]
            self.recv_total += len(data)
            peer = self.peer
            if peer is not None:
                peer.inflight -= len(data)
            return data
        if self.err:
            code = self.err
            self.err = 0
            raise oserror(code)
        if self.rx_eof or self.rst or self.shut_rd:
            return b''
        raise oserror(errno.EAGAIN)

    def spurious(self):
        net = self.net
        if net.p_eagain and self.eagain_run < 3 and net.rng.random() < net.p_eagain:
            self.eagain_run += 1
            net.sim.fault('spurious_eagain')
            return True
        self.eagain_run = 0
        return False

    def send(self, data):
        net = self.net
        if self.err:
            code = self.err
            self.err = 0
            raise oserror(code)
        if self.rst or self.shut_wr:
            raise oserror(errno.EPIPE)
        if self.state == 'connecting':
            raise oserror(errno.EAGAIN)
        if self.state != 'connected':
            raise oserror(errno.ENOTCONN if self.state != 'new' else errno.EPIPE)
        data = bytes(data)
        if not data:
            return 0
        space = self.cap - self.inflight
        if space <= 0:
            net.sim.fault('send_buffer_full')
            raise oserror(errno.EAGAIN)
        if not self.local:
            if self.spurious():
                raise oserror(errno.EAGAIN)
            if net.p_short and len(data) > 1 and net.rng.random() < net.p_short:
                space = min(space, 1 + net.rng.randrange(len(data)))
                net.sim.fault('short_write')
        if space < len(data):
            data = data[:space]
        self.inflight += len(data)
        self.sent_total += len(data)
        self.transmit(data)
        sim = net.sim
        if self.local and not sim.finished and sim.managed() is not None:
            # the real call lets other threads run before it returns
            sim.yield_point()
        return len(data)

    def transmit(self, data):
        net = self.net
        peer = self.peer
        if self.blackhole or peer is None:
            return
        if self.local:
            peer.deliver(data)
            return
        if net.p_segment and len(data) > 1 and net.rng.random() < net.p_segment:
            net.sim.fault('segmented')
            index = 0
            while index < len(data):
                size = 1 + net.rng.randrange(len(data) - index)
                self.schedule(peer.deliver, data[index:index + size])
                index += size
        else:
            self.schedule(peer.deliver, data)

    def schedule(self, func, *args):
        sim = self.net.sim
        when = max(self.last, sim.now + self.net.delay(), self.stalled_until)
        self.last = when
        sim.at(when, func, *args)

    def deliver(self, data):
        """data arrived at this end"""
        if self.closed:
            # the application is gone: answer with a reset
            peer = self.peer
            peer.inflight -= len(data)
            if not self.rst:
                self.rst = True
                if self.local:
                    peer.on_rst()
                else:
                    self.schedule(peer.on_rst)
            return
        if self.rst:
            return
        callback = self.callback
        self.net.sim.log('net', self.name, len(data))
        if callback is not None and not self.pause_rx:
            self.recv_total += len(data)
            self.peer.inflight -= len(data)
            callback(self, 'data', data)
        else:
            self.rx += data

    def resume_rx(self):
        """raw peer starts reading again"""
        self.pause_rx = False
        if self.rx:
            data = bytes(self.rx)
            self.rx.clear()
            self.recv_total += len(data)
            self.peer.inflight -= len(data)
            self.callback(self, 'data', data)
        if self.rx_eof and not self.closed:
            self.callback(self, 'eof', None)

    def on_fin(self):
        if self.rst or self.rx_eof:
            return
        self.rx_eof = True
        self.net.sim.log('fin', self.name)
        if self.callback is not None and not self.closed and not self.pause_rx:
            self.callback(self, 'eof', None)

    def on_rst(self):
        if self.rst:
            return
        self.net.sim.log('rst', self.name)
        self.rst = True
        if self.closed:
            return
        self.err = errno.EPIPE if self.rx_eof else errno.ECONNRESET
        if self.callback is not None:
            self.callback(self, 'rst', None)

    def shutdown_wr(self):
        if self.state != 'connected' or self.rst:
            raise oserror(errno.ENOTCONN)
        if self.shut_wr:
            return
        self.shut_wr = True
        self.send_fin()

    def send_fin(self):
        peer = self.peer
        if peer is None or self.blackhole:
            return
        if self.local:
            peer.on_fin()
        else:
            self.schedule(peer.on_fin)

    def send_rst(self):
        self.rst = True
        peer = self.peer
        if peer is None or self.blackhole:
            return
        self.net.sim.fault('rst_sent')
        if self.local:
            peer.on_rst()
        else:
            # a reset may overtake nothing that was sent before it, but is not delayed by a full window
            self.schedule(peer.on_rst)

    def on_close(self):
        if self.closed:
            return
        self.closed = True
        net = self.net
        if self.state == 'listening':
            if self.family == AF_UNIX:
                net.unix_listeners.pop(self.address, None)
            else:
                if net.listeners.get(self.address) is self:
                    del net.listeners[self.address]
            for end in self.backlog:
                end.on_close_pending()
            self.backlog.clear()
            return
        if self.state == 'connected' and self.peer is not None and not self.rst:
            if self.rx:
                self.peer.inflight -= len(self.rx)
                self.rx.clear()
                self.send_rst()
            elif not self.shut_wr:
                self.shut_wr = True
                self.send_fin()
        self.state = 'closed' if self.state != 'connecting' else 'closed'

    def on_close_pending(self):
        self.closed = True
        self.send_rst()

    # -- harness (raw peer) side
    def raw_send(self, data):
        """A peer with an unlimited send buffer."""
        if self.rst or self.shut_wr or self.closed:
            return
        self.inflight += len(data)
        self.sent_total += len(data)
        self.transmit(bytes(data))

    def raw_fin(self):
        if not (self.rst or self.shut_wr or self.closed):
            self.shut_wr = True
            self.send_fin()

    def raw_close(self):
        if not self.closed:
            self.on_close()

    def raw_rst(self):
        if not (self.rst or self.closed):
            self.closed = True
            self.send_rst()

    def stall(self, duration):
        self.net.sim.fault('stall')
        self.stalled_until = max(self.stalled_until, self.net.sim.now + duration)


def make_pair(net, name, local=False):
    a = End(net, name + 'a', local)
    b = End(net, name + 'b', local)
    a.peer = b
    b.peer = a
    a.state = b.state = 'connected'
    return a, b


class Udp(KObj):
    state = 'udp'

    def __init__(self, net, family):
        self.net = net
        self.family = family
        self.rx = deque()
        self.err = 0
        self.address = None
        self.peer_address = None
        self.closed = False
        self.queue_cap = net.p.get('udp_queue', 64)
        self.inflight = 0

    def readable(self):
        return bool(self.rx) or bool(self.err)

    def writable(self):
        return True

    def events(self):
        value = select.EPOLLOUT
        if self.readable():
            value |= select.EPOLLIN
        if self.err:
            value |= select.EPOLLERR
        return value

    def autobind(self):
        if self.address is None:
            ip = '127.0.0.1' if self.family == AF_INET else '::1'
            self.address = (ip, self.net.port())
            self.net.udp[self.address] = self

    def sendto(self, data, address):
        net = self.net
        if self.err:
            code = self.err
            self.err = 0
            raise oserror(code)
        if address is None:
            address = self.peer_address
            if address is None:
                raise oserror(errno.EDESTADDRREQ)
        if net.p_eagain and net.rng.random() < net.p_eagain:
            net.sim.fault('udp_eagain')
            raise oserror(errno.EAGAIN)
        self.autobind()
        address = (address[0], address[1])
        p = net.p
        data = bytes(data)
        net.sim.log('udp>', self.address[1], address[1], len(data))
        if p.get('udp_send_error') and net.rng.random() < p['udp_send_error']:
            net.sim.fault('udp_send_error')
            raise oserror(errno.ENETUNREACH)
        udp_transmit(net, data, self.address, address, self)
        return len(data)

    def recvfrom(self, n):
        net = self.net
        if self.err:
            code = self.err
            self.err = 0
            raise oserror(code)
        if not self.rx:
            raise oserror(errno.EAGAIN)
        if net.p_eagain and net.rng.random() < net.p_eagain:
            net.sim.fault('udp_eagain')
            raise oserror(errno.EAGAIN)
        data, source = self.rx.popleft()
        if self.family == AF_INET6:
            source = (*source, 0, 0)
        return data[:n], source

    def deliver(self, data, source):
        if self.closed:
            return
        if self.peer_address is not None and source != (self.peer_address[0], self.peer_address[1]):
            self.net.sim.fault('udp_filtered')
            return
        if len(self.rx) >= self.queue_cap:
            self.net.sim.fault('udp_overflow')
            return
        self.net.sim.log('udp<', self.address[1] if self.address else None, len(data))
        self.rx.append((data, source))

    def on_close(self):
        self.closed = True
        if self.net.udp.get(self.address) is self:
            del self.net.udp[self.address]


def udp_transmit(net, data, source, destination, sender=None):
    p = net.p
    rng = net.rng
    copies = 1
    if p.get('udp_loss') and rng.random() < p['udp_loss']:
        net.sim.fault('udp_loss')
        copies = 0
    elif p.get('udp_dup') and rng.random() < p['udp_dup']:
        net.sim.fault('udp_dup')
        copies = 2
    for _ in range(copies):
        delay = net.delay()
        if p.get('udp_reorder') and rng.random() < p['udp_reorder']:
            net.sim.fault('udp_delayed')
            delay += rng.random() * p.get('udp_reorder_max', 0.5)
        net.sim.after(delay, udp_arrive, net, data, source, destination, sender)


def udp_arrive(net, data, source, destination, sender):
    target = net.udp.get(destination)
    if target is None:
        target = net.udp.get(('0.0.0.0', destination[1]))
    if target is None:
        if (
            sender is not None and not sender.closed and sender.peer_address is not None and
            net.p.get('udp_refuse', True)
        ):
            net.sim.fault('udp_refused')
            sender.err = errno.ECONNREFUSED
        return
    if isinstance(target, Udp):
        target.deliver(data, source)
    else:
        def reply(payload, fake_source=None):
            udp_transmit(net, bytes(payload), fake_source or destination, source)
        target(data, source, reply)


class SimSocket:
    """Replaces `socket.socket`."""

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None, _kobj=None):
        sim = S.SIM
        if sim is None or sim.net is None:
            raise S.HarnessError('socket created outside of a simulation')
        net = sim.net
        self._sim = sim
        if family == -1:
            family = AF_INET
        if type == -1:
            type = STREAM
        self.family = socket.AddressFamily(family) if family in (AF_UNIX, AF_INET, AF_INET6) else family
        self.type = socket.SocketKind(type & 0xf) if (type & 0xf) in (1, 2) else type
        self.proto = 0 if proto == -1 else proto
        self._timeout = None
        self._opts = {}
        self._fd = -1
        if _kobj is None:
            if family not in (AF_UNIX, AF_INET, AF_INET6):
                raise oserror(errno.EAFNOSUPPORT)
            if family == AF_INET6 and net.p.get('no_ipv6'):
                sim.fault('no_ipv6')
                raise oserror(errno.EAFNOSUPPORT)
            if self.type == DGRAM:
                _kobj = Udp(net, family)
            else:
                _kobj = End(net, f's{net.opened}')
                _kobj.family = family
        self._k = _kobj
        self._fd = net.alloc(_kobj)

    def __repr__(self):
        return f'<SimSocket fd={self._fd} {self.family!r} {self.type!r}>'

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __del__(self):
        if self._fd != -1 and S.SIM is self._sim and not self._sim.finished:
            self._sim.net.gc_closed.append(self._fd)
            self._sim.probe('socket_closed_by_del')
            self.close()

    def _check(self):
        if self._fd == -1:
            raise oserror(errno.EBADF)
        return self._k

    def fileno(self):
        return self._fd

    def detach(self):
        fd = self._fd
        self._fd = -1
        return fd

    def close(self):
        fd = self._fd
        if fd != -1:
            self._fd = -1
            net = self._sim.net
            if fd in net.fds:
                self._sim.log('close', fd)
                net.close_fd(fd)

    def setblocking(self, flag):
        self._check()
        self._timeout = None if flag else 0.0

    def getblocking(self):
        return self._timeout != 0.0

    def settimeout(self, value):
        self._timeout = value

    def gettimeout(self):
        return self._timeout

    timeout = property(gettimeout)

    def setsockopt(self, level, option, value, *args):
        self._check()
        self._opts[level, option] = value

    def getsockopt(self, level, option, *args):
        k = self._check()
        if level == socket.SOL_SOCKET and option == socket.SO_ERROR:
            value = k.err
            k.err = 0
            return value
        return self._opts.get((level, option), 0)

    def getsockname(self):
        k = self._check()
        if k.address is None:
            if self.family == AF_UNIX:
                return ''
            return ('0.0.0.0', 0) if self.family == AF_INET else ('::', 0, 0, 0)
        if self.family == AF_INET6 and len(k.address) == 2:
            return (*k.address, 0, 0)
        return k.address

    def getpeername(self):
        k = self._check()
        if k.peer_address is None or getattr(k, 'rst', False):
            raise oserror(errno.ENOTCONN)
        if self.family == AF_INET6 and len(k.peer_address) == 2:
            return (*k.peer_address, 0, 0)
        return k.peer_address

    def bind(self, address):
        k = self._check()
        net = self._sim.net
        if self.family == AF_UNIX:
            if address in net.unix_listeners:
                raise oserror(errno.EADDRINUSE)
            k.address = address
            return
        ip, port = address[0], address[1]
        if (':' in ip) != (self.family == AF_INET6):
            raise socket.gaierror(-9, 'Address family for hostname not supported')
        policy = net.p.get('bind')
        code = None if policy is None else policy(ip)
        if code is not None:
            net.sim.fault('bind_' + errno.errorcode[code].lower())
            raise oserror(code)
        if port == 0:
            port = net.port()
        if self.type == DGRAM:
            if (ip, port) in net.udp:
                raise oserror(errno.EADDRINUSE)
            k.address = (ip, port)
            net.udp[k.address] = k
        else:
            if (ip, port) in net.listeners:
                raise oserror(errno.EADDRINUSE)
            k.address = (ip, port)

    def listen(self, backlog=128):
        k = self._check()
        k.state = 'listening'
        k.backlog_max = max(backlog, 1)
        net = self._sim.net
        if self.family == AF_UNIX:
            net.unix_listeners[k.address] = k
        else:
            if k.address is None:
                k.address = ('0.0.0.0', net.port())
            net.listeners[k.address] = k

    def accept(self):
        k = self._check()
        net = self._sim.net
        if k.state != 'listening':
            raise oserror(errno.EINVAL)
        if net.accept_faults and net.rng.random() < net.accept_faults:
            code = net.rng.choice((errno.EAGAIN, errno.ECONNABORTED, errno.EMFILE))
            net.sim.fault('accept_' + errno.errorcode[code].lower())
            if code == errno.ECONNABORTED and k.backlog:
                end = k.backlog.popleft()
                end.on_close_pending()
            raise oserror(code)
        if not k.backlog:
            raise oserror(errno.EAGAIN)
        if net.fd_limit is not None and len(net.fds) >= net.fd_limit:
            net.sim.fault('emfile')
            raise oserror(errno.EMFILE)
        end = k.backlog.popleft()
        sock = SimSocket(self.family, self.type, self.proto, _kobj=end)
        return sock, (end.peer_address or '')

    def connect(self, address):
        k = self._check()
        net = self._sim.net
        sim = self._sim
        if self.type == DGRAM:
            k.peer_address = address
            k.autobind()
            return
        if k.state == 'connected':
            raise oserror(errno.EISCONN)
        if k.state == 'connecting':
            raise oserror(errno.EALREADY)
        if self.family == AF_UNIX:
            listener = net.unix_listeners.get(address)
            if listener is None:
                raise oserror(errno.ENOENT)
            other = End(net, k.name + '\'')
            other.family = AF_UNIX
            other.peer = k
            k.peer = other
            k.state = other.state = 'connected'
            k.peer_address = address
            other.address = address
            if callable(listener):
                listener(other)
            else:
                listener.backlog.append(other)
            return
        if k.address is None:
            k.address = ('127.0.0.1' if self.family == AF_INET else '::1', net.port())
        k.peer_address = (address[0], address[1])
        k.state = 'connecting'
        policy = net.p.get('connect')
        if policy is not None:
            outcome = policy(k.peer_address)
        else:
            outcome = None
        if outcome is None:
            r = net.rng.random()
            refuse = net.p.get('refuse', 0.0)
            never = net.p.get('connect_never', 0.0)
            if r < refuse:
                outcome = 'refuse'
            elif r < refuse + never:
                outcome = 'never'
            else:
                outcome = 'ok'
        sim.log('connect', k.name, k.peer_address[0], k.peer_address[1], outcome)
        if outcome == 'unreachable':
            sim.fault('connect_unreachable')
            k.state = 'failed'
            raise oserror(errno.ENETUNREACH)
        if outcome == 'never':
            sim.fault('connect_never')
            # the kernel gives up after about two minutes
            sim.after(127.0, self._connected, k, 'timeout')
        else:
            sim.after(2 * net.delay(), self._connected, k, outcome)
        raise oserror(errno.EINPROGRESS)

    @staticmethod
    def _connected(k, outcome):
        net = k.net
        if k.closed or k.state != 'connecting':
            return
        if outcome == 'timeout':
            k.state = 'failed'
            k.err = errno.ETIMEDOUT
            k.rst = True
            return
        ip, port = k.peer_address[0], k.peer_address[1]
        listener = net.listeners.get((ip, port))
        if listener is None:
            listener = net.listeners.get(('0.0.0.0', port))
        if outcome == 'refuse' or listener is None:
            net.sim.fault('connect_refused')
            k.state = 'failed'
            k.err = errno.ECONNREFUSED
            k.rst = True
            return
        if not callable(listener) and len(listener.backlog) > listener.backlog_max:
            net.sim.fault('backlog_full')
            net.sim.after(1.0, SimSocket._connected, k, outcome)
            return
        other = End(net, k.name + '\'')
        other.family = k.family
        other.peer = k
        k.peer = other
        other.address = k.peer_address
        other.peer_address = k.address
        k.state = other.state = 'connected'
        net.conns.append((k, other))
        if callable(listener):
            listener(other)
        else:
            listener.backlog.append(other)

    def connect_ex(self, address):
        try:
            self.connect(address)
        except OSError as exception:
            return exception.errno
        return 0

    def recv(self, n, flags=0):
        k = self._check()
        if self.type == DGRAM:
            return k.recvfrom(n)[0]
        return k.recv(n)

    def recv_into(self, buffer, nbytes=0, flags=0):
        k = self._check()
        view = memoryview(buffer).cast('B')
        n = nbytes or len(view)
        data = k.recv(n) if self.type != DGRAM else k.recvfrom(n)[0]
        view[:len(data)] = data
        return len(data)

    def recvfrom(self, n, flags=0):
        k = self._check()
        if self.type == DGRAM:
            return k.recvfrom(n)
        return k.recv(n), None

    def send(self, data, flags=0):
        k = self._check()
        if self.type == DGRAM:
            return k.sendto(memoryview(data).cast('B'), None)
        return k.send(memoryview(data).cast('B'))

    def sendto(self, data, *args):
        k = self._check()
        return k.sendto(memoryview(data).cast('B'), args[-1])

    def sendmsg(self, buffers, *args):
        k = self._check()
        return k.send(b''.join(bytes(b) for b in buffers))

    def sendall(self, data):
        raise S.HarnessError('blocking sendall')

    def shutdown(self, how):
        k = self._check()
        if k.state != 'connected' or k.rst:
            raise oserror(errno.ENOTCONN)
        if how in (socket.SHUT_WR, socket.SHUT_RDWR):
            k.shutdown_wr()
        if how in (socket.SHUT_RD, socket.SHUT_RDWR):
            k.shut_rd = True


def socketpair(family=None, type=STREAM, proto=0):
    sim = S.SIM
    if sim is None or sim.net is None:
        return real_socketpair(family, type, proto)
    net = sim.net
    a, b = make_pair(net, f'p{net.opened}', local=True)
    a.cap = b.cap = net.p.get('pair_cap', 65536)
    a.family = b.family = AF_UNIX
    s0 = SimSocket(AF_UNIX, STREAM, 0, _kobj=a)
    try:
        s1 = SimSocket(AF_UNIX, STREAM, 0, _kobj=b)
    except OSError:
        s0.close()
        raise
    return s0, s1


class FakeEpoll(KObj):
    def __init__(self, *args, **kwargs):
        sim = S.SIM
        if sim is None or sim.net is None:
            raise S.HarnessError('epoll outside of a simulation')
        self.net = sim.net
        self.reg = {}
        self._closed = False
        self.net.epolls.append(self)
        self.net.alloc(self)
        self.myfd = self.fd

    @property
    def closed(self):
        return self._closed

    def fileno(self):
        return self.myfd

    def _lookup(self, fd):
        if self._closed:
            raise ValueError('I/O operation on closed epoll object')
        obj = self.net.fds.get(fd)
        if obj is None:
            raise oserror(errno.EBADF)
        return obj

    def register(self, fd, events=0):
        obj = self._lookup(fd)
        if not hasattr(obj, 'events'):
            raise oserror(errno.EPERM)
        if fd in self.reg:
            raise oserror(errno.EEXIST)
        self.reg[fd] = [obj, events]

    def modify(self, fd, events):
        self._lookup(fd)
        if fd not in self.reg:
            raise oserror(errno.ENOENT)
        self.reg[fd][1] = events

    def unregister(self, fd):
        self._lookup(fd)
        if fd not in self.reg:
            raise oserror(errno.ENOENT)
        del self.reg[fd]

    def _ready(self):
        for obj, events in self.reg.values():
            if obj.events() & (events | select.EPOLLERR | select.EPOLLHUP):
                return True
        return False

    def poll(self, timeout=None, maxevents=-1):
        if self._closed:
            raise ValueError('I/O operation on closed epoll object')
        net = self.net
        sim = net.sim
        if sim.managed() is None:
            raise S.HarnessError('epoll.poll from an unmanaged thread')
        if timeout is None or timeout < 0:
            deadline = None
        else:
            deadline = sim.now + timeout
        if deadline is not None and timeout == 0:
            sim.yield_point()
            sim._run_due()
        else:
            sim.block(self._ready, deadline, 'select')
        result = []
        for fd, (obj, events) in self.reg.items():
            got = obj.events() & (events | select.EPOLLERR | select.EPOLLHUP)
            if got:
                result.append((fd, got))
        if len(result) > 1:
            net.rng.shuffle(result)
        if maxevents > 0:
            del result[maxevents:]
        return result

    def close(self):
        if not self._closed:
            self._closed = True
            if self in self.net.epolls:
                self.net.epolls.remove(self)
            if self.net.fds.get(self.myfd) is self:
                self.net.close_fd(self.myfd)


class SimSelector(selectors.EpollSelector):
    _selector_cls = FakeEpoll


# ---- pipes and files by descriptor ----------------------------------------------------------------------------

class PipeEnd(End):
    kind = stat.S_IFIFO

    def events(self):
        if self.mode == 'r':
            value = 0
            if self.rx:
                value |= select.EPOLLIN
            if self.rx_eof:
                value |= select.EPOLLHUP
            return value
        value = 0
        if self.peer.closed:
            value |= select.EPOLLERR | select.EPOLLOUT
        elif self.inflight < self.cap:
            value |= select.EPOLLOUT
        return value

    def read(self, n):
        if self.mode != 'r':
            raise oserror(errno.EBADF)
        if not self.rx and self.rx_eof:
            return b''
        if not self.rx:
            raise oserror(errno.EAGAIN)
        return End.recv(self, n)

    def write(self, data):
        if self.mode != 'w':
            raise oserror(errno.EBADF)
        if self.peer.closed:
            raise oserror(errno.EPIPE)
        return End.send(self, data)

    def deliver(self, data):
        if self.closed:
            self.peer.inflight -= len(data)
            return
        End.deliver(self, data)

    def on_close(self):
        if self.closed:
            return
        self.closed = True
        if self.mode == 'w':
            self.send_fin()


def make_pipe(net, cap=65536):
    """-> (read end, write end) kernel objects, without descriptors"""
    r = PipeEnd(net, f'r{net.opened}')
    w = PipeEnd(net, f'w{net.opened}')
    r.mode, w.mode = 'r', 'w'
    r.peer, w.peer = w, r
    r.state = w.state = 'connected'
    r.cap = w.cap = cap
    return r, w


class PipeFile:
    """File object over a simulated descriptor."""

    def __init__(self, net, kobj, mode):
        self._net = net
        self._sim = net.sim
        self._k = kobj
        self._fd = net.alloc(kobj)
        self.mode = mode
        self.name = self._fd

    def fileno(self):
        if self._fd == -1:
            raise ValueError('I/O operation on closed file')
        return self._fd

    @property
    def closed(self):
        return self._fd == -1

    def close(self):
        fd = self._fd
        if fd != -1:
            self._fd = -1
            if self._net.fds.get(fd) is self._k:
                self._net.close_fd(fd)

    def detach(self):
        fd = self._fd
        self._fd = -1
        return fd

    def flush(self):
        pass

    def __del__(self):
        if self._fd != -1 and S.SIM is self._sim and not self._sim.finished:
            self._sim.probe('pipe_closed_by_del')
            self.close()


def _fake(fd):
    return type(fd) is int and fd >= FD_BASE and S.SIM is not None and S.SIM.net is not None


def os_read(fd, n):
    if _fake(fd):
        obj = S.SIM.net.fds.get(fd)
        if obj is None:
            raise oserror(errno.EBADF)
        return obj.read(n) if isinstance(obj, PipeEnd) else obj.recv(n)
    return real_os['read'](fd, n)


def os_write(fd, data):
    if _fake(fd):
        obj = S.SIM.net.fds.get(fd)
        if obj is None:
            raise oserror(errno.EBADF)
        data = memoryview(data).cast('B')
        return obj.write(data) if isinstance(obj, PipeEnd) else obj.send(data)
    return real_os['write'](fd, data)


def os_close(fd):
    if _fake(fd):
        return S.SIM.net.close_fd(fd)
    return real_os['close'](fd)


def os_set_blocking(fd, flag):
    if _fake(fd):
        if fd not in S.SIM.net.fds:
            raise oserror(errno.EBADF)
        return
    return real_os['set_blocking'](fd, flag)


def os_fstat(fd):
    if _fake(fd):
        obj = S.SIM.net.fds.get(fd)
        if obj is None:
            raise oserror(errno.EBADF)
        mode = stat.S_IFIFO if isinstance(obj, PipeEnd) else stat.S_IFSOCK
        return os.stat_result((mode | 0o600, 0, 0, 1, 0, 0, 0, 0, 0, 0))
    return real_os['fstat'](fd)


class SimPopen:
    """
    Replaces `subprocess.Popen`.  What the child does is decided by `sim.params['child']`: a callable receiving this
    object, which drives `child_stdin` (End / None), `child_stdout` and `child_stderr` and calls `child_exit(code)`.
    """

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, **kwargs):
        sim = S.SIM
        if sim is None or sim.net is None:
            raise S.HarnessError('Popen outside of a simulation')
        net = sim.net
        self.sim = sim
        self.net = net
        self.args = args
        self.kwargs = kwargs
        self.returncode = None
        self.exit_code = None
        self.signals = []
        if sim.params.get('spawn_fail') and net.rng.random() < sim.params['spawn_fail']:
            sim.fault('spawn_failed')
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', args)
        self.stdin = self.stdout = self.stderr = None
        self.child_stdin = self.child_stdout = self.child_stderr = None
        if stdin == subprocess.PIPE:
            r, w = make_pipe(net, net.p.get('pipe_cap', 65536))
            self.child_stdin = r
            self.stdin = PipeFile(net, w, 'wb')
        elif stdin is not None and stdin != subprocess.DEVNULL:
            # one end of a socket pair: the child inherits it (a second reference to the same open file)
            fd = stdin if isinstance(stdin, int) else stdin.fileno()
            if _fake(fd):
                parent = net.fds[fd]
                child = Inherited(parent)
                self.child_stdin = child
        if stdout == subprocess.PIPE:
            r, w = make_pipe(net, net.p.get('pipe_cap', 65536))
            self.child_stdout = w
            self.stdout = PipeFile(net, r, 'rb')
        if stderr == subprocess.PIPE:
            r, w = make_pipe(net, net.p.get('pipe_cap', 65536))
            self.child_stderr = w
            self.stderr = PipeFile(net, r, 'rb')
        elif stderr == subprocess.STDOUT:
            self.child_stderr = self.child_stdout
        net.pid += 1
        self.pid = net.pid
        net.procs.append(self)
        child = sim.params.get('child')
        if child is not None:
            child(self)

    # child side
    def child_exit(self, code):
        if self.exit_code is not None:
            return
        self.exit_code = code
        self.sim.log('child_exit', code)
        for end in (self.child_stdin, self.child_stdout, self.child_stderr):
            if end is not None:
                end.on_close()

    # parent side
    def poll(self):
        if self.returncode is None and self.exit_code is not None:
            self.returncode = self.exit_code
        return self.returncode

    def _exited(self):
        return self.exit_code is not None

    def wait(self, timeout=None):
        sim = self.sim
        deadline = None if timeout is None else sim.now + timeout
        if not sim.block(self._exited, deadline, 'waitpid'):
            raise subprocess.TimeoutExpired(self.args, timeout)
        return self.poll()

    def send_signal(self, sig):
        self.poll()
        if self.returncode is not None:
            return
        self.signals.append(int(sig))
        self.sim.log('signal', int(sig))
        handler = getattr(self, 'child_signal', None)
        if handler is not None:
            handler(int(sig))
        elif self.exit_code is None:
            self.sim.after(self.net.delay(), self.child_exit, -int(sig))

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        for f in (self.stdin, self.stdout, self.stderr):
            if f is not None:
                f.close()
        self.wait()


class Inherited:
    """The child's reference to a socket created by the parent."""

    def __init__(self, end):
        self.end = end
        self.refs = 2
        end.on_close = self.parent_close
        self.closed = False

    def parent_close(self):
        self._drop()

    def on_close(self):
        if not self.closed:
            self.closed = True
            self._drop()

    def _drop(self):
        self.refs -= 1
        if self.refs == 0:
            End.on_close(self.end)


def patch():
    socket.socket = SimSocket
    socket.socketpair = socketpair
    selectors.DefaultSelector = SimSelector
    os.read = os_read
    os.write = os_write
    os.close = os_close
    os.set_blocking = os_set_blocking
    os.fstat = os_fstat
    subprocess.Popen = SimPopen
