"""
The simulated network: addresses, connections, and the socket object the driver gets.

Faults (all decided by the plan or the choice stream):
  segmentation, delay, retryable errors, partial sends, refused / hanging / failing
  connects, EOF and reset at a byte offset of either direction, stalls.
"""
import errno, socket as _s
from .core import MS, SEC, SimAbort, HarnessError

REAL = {}
RETRY = (errno.EAGAIN, errno.EINTR, errno.EWOULDBLOCK, errno.ETIMEDOUT)


class Policy:
    """per-run network behaviour"""
    def __init__(self, d=None):
        d = d or {}
        self.seg = d.get('seg', 'whole')          # whole | mixed | tiny
        self.delay = d.get('delay', 0)            # maximum one-way delay in microseconds
        self.again = d.get('again', 0)            # permille of calls hit by a retryable error
        self.partial = d.get('partial', 0)        # permille of sends that accept only a prefix
        self.errnos = d.get('errnos', list(RETRY))


class Conn:
    """one TCP connection"""
    def __init__(self, net, cid, addr):
        self.net = net; self.sim = net.sim; self.cid = cid; self.addr = addr
        self.c2s_sent = 0         # bytes accepted from the client
        self.s2c_sent = 0         # bytes the server wrote
        self.s2c_delivered = 0
        self.rx = bytearray()     # delivered to the client, unread
        self.rx_eof = False
        self.rx_err = None        # errno raised by recv after rx is drained (None: no error)
        self.tx_err = None        # errno raised by send
        self.tx_grace = False     # the first send after the peer's FIN is still accepted (and lost)
        self.send_failed = False  # a send raised
        self.srv_closed = False   # server endpoint closed
        self.cli_closed = False
        self.backend = None
        self.last_c2s = 0; self.last_s2c = 0
        self.tls = False
        self.wire = bytearray()   # everything the client sent
        self.faults = net.faults_for(cid)
        self.cut_s2c = None
        self.lost = False         # a connection-breaking fault fired
        self.signal = None        # an exception a signal handler raises at the next send or receive
        self.on_io = None         # called before every send and receive; may raise
        for f in self.faults:
            if f['dir'] == 's2c':
                if self.cut_s2c is None or f['at'] < self.cut_s2c['at']:
                    self.cut_s2c = f
        self.cut_c2s = None
        for f in self.faults:
            if f['dir'] == 'c2s':
                if self.cut_c2s is None or f['at'] < self.cut_c2s['at']:
                    self.cut_c2s = f

    # ---- server side
    def server_write(self, data):
        if self.srv_closed or self.lost or not data:
            return
        f = self.cut_s2c
        if f is not None and self.s2c_sent + len(data) >= f['at']:
            keep = data[:max(0, f['at'] - self.s2c_sent)]
            self.s2c_sent += len(keep)
            if keep:
                self._deliver_later(bytes(keep))
            self.lost = True
            self.sim.count('cut_s2c_' + f['how'])
            self.sim.log('net cut s2c', self.cid, f['how'], 'at', self.s2c_sent)
            self._later_s2c(lambda: self._break(f['how']))
            return
        self.s2c_sent += len(data)
        self._deliver_later(bytes(data))

    def _break(self, how):
        if how == 'eof':
            self.rx_eof = True
            self.tx_err = errno.EPIPE
            self.tx_grace = True
        else:
            if how == 'reset_drop':
                del self.rx[:]
            self.rx_err = errno.ECONNRESET
            self.tx_err = errno.EPIPE if how == 'epipe' else errno.ECONNRESET
        self._server_gone()

    def _server_gone(self):
        b, self.backend = self.backend, None
        if b is not None:
            b.disconnected()
        self.srv_closed = True

    def server_close(self, how='eof'):
        """the server ends the connection (process exit)"""
        if self.srv_closed:
            return
        self.srv_closed = True
        self.backend = None

        def fin():
            if how == 'eof':
                self.rx_eof = True
                self.tx_grace = True
            else:
                self.rx_err = errno.ECONNRESET
            self.tx_err = errno.EPIPE
        self._later_s2c(fin)

    def _later_s2c(self, fn):
        pol = self.net.policy
        d = self.sim.ch.below(pol.delay) if pol.delay else 0
        t = max(self.sim.now + d, self.last_s2c)
        self.last_s2c = t
        self.sim.after(t - self.sim.now, fn)

    def _deliver_later(self, data):
        pol = self.net.policy
        if pol.seg != 'whole' and len(data) > 1 and pol.delay and self.sim.ch.below(3):
            k = 1 + self.sim.ch.below(len(data) - 1)
            self.sim.count('split_s2c')
            self._deliver_later1(data[:k])
            self._deliver_later1(data[k:])
        else:
            self._deliver_later1(data)

    def _deliver_later1(self, data):
        def arrive():
            if self.rx_err is None and not self.rx_eof and not self.cli_closed:
                self.rx += data
                self.s2c_delivered += len(data)
        self._later_s2c(arrive)

    # ---- client side
    def client_write(self, data):
        """bytes accepted by the kernel"""
        self.c2s_sent += len(data)
        self.wire += data
        if self.backend is None:
            return
        pol = self.net.policy
        parts = [bytes(data)]
        if pol.seg != 'whole' and len(data) > 1 and pol.delay and self.sim.ch.below(3) == 1:
            k = 1 + self.sim.ch.below(len(data) - 1)
            parts = [bytes(data[:k]), bytes(data[k:])]
            self.sim.count('split_c2s')
        for p in parts:
            d = self.sim.ch.below(pol.delay) if pol.delay else 0
            t = max(self.sim.now + d, self.last_c2s)
            self.last_c2s = t
            self.sim.after(t - self.sim.now, lambda p=p: self.backend is not None and self.backend.feed(p))

    def client_close(self):
        if self.cli_closed:
            return
        self.cli_closed = True
        t = max(self.sim.now, self.last_c2s)

        def fin():
            b, self.backend = self.backend, None
            if b is not None:
                b.disconnected()
            self.srv_closed = True
        self.sim.after(t - self.sim.now, fin)


class Net:
    def __init__(self, sim, policy=None, faults=()):
        self.sim = sim
        self.policy = Policy(policy)
        self.listeners = {}       # address -> callable(conn) -> backend
        self.names = {}           # host name -> [ip, ...]
        self.conns = []
        self.sockets = []
        self.faults = list(faults)
        self.connect_plan = {}    # address -> list of outcomes consumed per attempt
        self.nfd = 100
        self.byfd = {}
        self.on_connect = None
        self.emfile = ()          # indices of socket() calls that fail
        self.emfile_hit = 0
        self.on_emfile = None
        self.on_bind = None       # (socket, address) -> the address it gets
        self.nsock = 0

    def faults_for(self, cid):
        return [f for f in self.faults if f.get('conn') == cid and 'dir' in f]

    def listen(self, addr, factory):
        self.listeners[addr] = factory

    def open_sockets(self):
        return [s for s in self.sockets if not s.closed]


NET = None       # the network of the run in progress


def set_net(net):
    global NET
    NET = net


def oserr(no):
    import os
    return OSError(no, os.strerror(no))     # picks the right subclass


class SimSocket:
    """what `socket.socket(...)` gives the driver during a run"""
    def __init__(self, family=_s.AF_INET, type=_s.SOCK_STREAM, proto=0, fileno=None):
        if NET is None:
            raise HarnessError('socket used outside a run')
        self.net = NET; self.sim = NET.sim
        self.family = family; self.type = type; self.proto = proto
        self.conn = None
        self.timeout = None
        self.bound = None
        self.closed = True
        NET.nsock += 1
        if NET.nsock - 1 in NET.emfile:
            NET.emfile_hit += 1
            self.sim.count('emfile')
            if NET.on_emfile is not None:
                NET.on_emfile(self)
            raise OSError(errno.EMFILE, 'Too many open files')
        self.closed = False
        self._fd = NET.nfd; NET.nfd += 1
        NET.byfd[self._fd] = self
        NET.sockets.append(self)
        self.sim.count('sockets')

    # -- lifecycle
    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def getpeername(self):
        return self.conn.addr

    def bind(self, addr):
        if self.net.on_bind is not None:
            addr = self.net.on_bind(self, addr)
        self.bound = addr

    def getsockname(self):
        return self.bound or ('127.0.0.1', self._fd)

    def fileno(self):
        return -1 if self.closed else self._fd

    def close(self):
        if not self.closed:
            self.closed = True
            self.sim.log('cli close', self._fd, self.conn.cid if self.conn else None)
            self.net.byfd.pop(self._fd, None)
            if self.conn is not None:
                self.conn.client_close()

    def detach(self):
        fd = self._fd
        self.closed = True
        return fd

    def shutdown(self, how):
        if self.conn is not None:
            self.conn.client_close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _check(self):
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if self.conn is None:
            raise OSError(errno.ENOTCONN, 'Transport endpoint is not connected')

    def connect(self, addr):
        self.sim.point()
        if isinstance(addr, list):
            addr = tuple(addr)
        plan = self.net.connect_plan.get(addr)
        out = plan.pop(0) if plan else 'ok'
        self.sim.log('cli connect', addr, out)
        self.outcome = out
        if self.net.on_connect is not None:
            self.net.on_connect(addr, self)
        if out == 'hang':
            # SYN never answered
            self.sim.count('connect_hang')
            if self.timeout is None:
                self.sim.block(lambda: False, 127 * SEC, 'connect')
                raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
            self.sim.block(lambda: False, int(self.timeout * SEC), 'connect')
            raise _s.timeout('timed out')
        if out == 'slow':
            self.sim.count('connect_slow')
            d = int((self.timeout if self.timeout is not None else 2.0) * SEC * 0.5)
            self.sim.block(lambda: False, d, 'connect')
            out = 'ok'
        if out == 'ok' and addr not in self.net.listeners:
            out = 'refused'
        if out == 'refused':
            self.sim.count('connect_refused')
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        if out == 'unreach':
            self.sim.count('connect_unreach')
            raise OSError(errno.EHOSTUNREACH, 'No route to host')
        if out == 'etimedout':
            self.sim.count('connect_etimedout')
            raise TimeoutError(errno.ETIMEDOUT, 'Connection timed out')
        c = Conn(self.net, len(self.net.conns), addr)
        self.net.conns.append(c)
        self.conn = c
        c.sock = self
        c.backend = self.net.listeners[addr](c)
        self.sim.count('connections')

    # -- data
    def _again(self, what):
        pol = self.net.policy
        if pol.again and self.sim.ch.chance(pol.again):
            no = pol.errnos[self.sim.ch.below(len(pol.errnos))]
            self.sim.count('retry_%s_%s' % (what, errno.errorcode[no]))
            self.sim.mark('A')
            raise oserr(no)

    def send(self, data, flags=0):
        self.sim.point()
        self._check()
        c = self.conn
        self.sim.maybe_gc()
        if self.closed or c.cli_closed:
            self._check()
        n = len(data)
        if c.on_io is not None:
            c.on_io('send')
        self._signal('send')
        self._again('send')
        if c.tx_err is not None and c.tx_grace:
            c.tx_grace = False
            self.sim.count('send_after_fin')
            self.sim.log('cli send', c.cid, n, 'after fin')
            return n
        if c.tx_err is not None:
            c.send_failed = True
            self.sim.log('cli send', c.cid, 'error', c.tx_err)
            raise oserr(c.tx_err)
        f = c.cut_c2s
        if f is not None and c.c2s_sent + n > f['at']:
            k = f['at'] - c.c2s_sent
            if k > 0:
                c.client_write(memoryview(data)[:k].tobytes())
                self.sim.log('cli send', c.cid, k, 'of', n)
                return k
            self.sim.count('cut_c2s_' + f['how'])
            self.sim.log('net cut c2s', c.cid, f['how'])
            c.lost = c.send_failed = True
            self.sim.after(max(0, c.last_c2s - self.sim.now), c._server_gone)
            c.tx_err = errno.EPIPE if f['how'] == 'epipe' else errno.ECONNRESET
            c.rx_err = errno.ECONNRESET if f['how'] != 'epipe' else None
            if f['how'] == 'epipe':
                c.rx_eof = True
            else:
                del c.rx[:]
            raise oserr(c.tx_err)
        pol = self.net.policy
        if n > 1 and pol.partial and self.sim.ch.chance(pol.partial):
            n = 1 + self.sim.ch.below(n - 1)
            self.sim.count('partial_send')
            self.sim.mark('P')
        c.client_write(memoryview(data)[:n].tobytes())
        self.sim.log('cli send', c.cid, n)
        return n

    def sendall(self, data, flags=0):
        mv = memoryview(data)
        while len(mv):
            try:
                mv = mv[self.send(mv):]
            except OSError as e:
                if e.errno in (errno.EINTR,):
                    continue
                raise

    def _signal(self, what):
        c = self.conn
        if c.signal is not None:
            e, c.signal = c.signal, None
            self.sim.count('signal_in_' + what)
            self.sim.log('signal in', what, c.cid)
            self.sim.mark('S')
            raise e

    def _wait(self, what):
        c = self.conn
        to = None if self.timeout is None else int(self.timeout * SEC)
        ok = self.sim.block(lambda: c.rx or c.rx_eof or c.rx_err is not None or self.closed or c.signal is not None, to, what)
        self._signal(what)
        if not ok:
            if self.timeout == 0.0:
                raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
            raise _s.timeout('timed out')

    def recv(self, n, flags=0):
        self.sim.point()
        self._check()
        c = self.conn
        self.sim.maybe_gc()
        if c.on_io is not None:
            c.on_io('recv')
        self._signal('recv')
        self._again('recv')
        if not c.rx:
            self._wait('recv')
            if self.closed:
                self._check()
        if c.rx:
            avail = min(n, len(c.rx))
            k = self._chunk(avail)
            data = bytes(c.rx[:k])
            del c.rx[:k]
            self.sim.log('cli recv', c.cid, k)
            self.sim.mark(b'r%d' % min(k, 7))
            return data
        if c.rx_err is not None:
            self.sim.log('cli recv', c.cid, 'error', c.rx_err)
            raise oserr(c.rx_err)
        self.sim.log('cli recv', c.cid, 'eof')
        return b''

    def _chunk(self, avail):
        pol = self.net.policy
        if avail <= 1 or pol.seg == 'whole':
            return avail
        ch = self.sim.ch
        if pol.seg == 'tiny':
            # 0: everything
            r = ch.below(8)
            if r == 0:
                return avail
            return min(avail, r)
        r = ch.below(6)
        if r <= 1:
            return avail
        self.sim.count('split_recv')
        if r == 2:
            return 1
        if r == 3:
            return min(avail, 1 + ch.below(9))
        if r == 4:
            return avail - 1 if avail > 1 else avail
        return 1 + ch.below(avail)

    def recv_into(self, buf, nbytes=0, flags=0):
        mv = memoryview(buf)
        n = nbytes or len(mv)
        d = self.recv(min(n, len(mv)))
        mv[:len(d)] = d
        return len(d)

    def readable(self):
        c = self.conn
        return self.closed or c is None or bool(c.rx) or c.rx_eof or c.rx_err is not None

    def __repr__(self):
        return '<SimSocket %d>' % self._fd


class SimTLSSocket(SimSocket):
    def __init__(self, raw):
        self.net = raw.net; self.sim = raw.sim
        self.family = raw.family; self.type = raw.type; self.proto = raw.proto
        self.conn = raw.conn; self.timeout = raw.timeout
        self.closed = False
        self._fd = raw._fd
        raw.closed = True           # as detach() does
        self.net.sockets.append(self)
        self.net.byfd[self._fd] = self
        self.conn.sock = self


class FakeSSLContext:
    """stands in for ssl.SSLContext: no cryptography, only who saw what in clear"""
    def __init__(self, *a, **k):
        self.check_hostname = True
        self.verify_mode = 2

    def load_cert_chain(self, *a, **k):
        pass

    def load_verify_locations(self, *a, **k):
        pass

    def wrap_socket(self, sock, *a, **k):
        import ssl
        sock.sim.point()
        c = sock.conn
        out = getattr(c, 'tls_outcome', 'ok')
        s = SimTLSSocket(sock)
        sock.sim.log('tls handshake', c.cid, out)
        if c.rx_eof or c.rx_err is not None or out == 'eof':
            s.close()
            raise ssl.SSLEOFError(8, 'EOF occurred in violation of protocol')
        if out == 'reset':
            s.close()
            raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if out == 'fail':
            sock.sim.count('tls_fail')
            s.close()
            raise ssl.SSLError(1, '[SSL: WRONG_VERSION_NUMBER] wrong version number')
        c.tls = True
        if c.backend is not None:
            c.backend.tls_started()
        return s


def sim_select(r, w, x, timeout=None):
    sim = NET.sim

    def sock_of(o):
        fd = o if isinstance(o, int) else o.fileno()
        if fd < 0:
            raise ValueError('file descriptor cannot be a negative integer (%d)' % fd)
        s = NET.byfd.get(fd)
        if s is None:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        return s
    rs = [(o, sock_of(o)) for o in r]
    xs = [(o, sock_of(o)) for o in x]
    [sock_of(o) for o in w]
    sim.point()
    sim.count('select')
    if w:
        return ([o for o, s in rs if s.readable()], list(w), [])
    sim.block(lambda: any(s.readable() for o, s in rs), None if timeout is None else int(timeout * SEC + 0.5), 'select')
    return ([o for o, s in rs if s.readable()], [], [])


def sim_getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    sim = NET.sim
    sim.point()
    if host not in NET.names:
        raise _s.gaierror(_s.EAI_NONAME, 'Name or service not known')
    out = []
    for ip in NET.names[host]:
        fam = _s.AF_INET6 if ':' in ip else _s.AF_INET
        if family and family != fam:
            continue
        sa = (ip, int(port), 0, 0) if fam == _s.AF_INET6 else (ip, int(port))
        out.append((fam, _s.SOCK_STREAM, 6, '', sa))
    if not out:
        raise _s.gaierror(_s.EAI_NONAME, 'Name or service not known')
    return out


def sim_create_connection(address, timeout=None, *a, **k):
    s = SimSocket()
    s.settimeout(timeout if isinstance(timeout, (int, float)) else None)
    try:
        s.connect(address)
    except BaseException:
        s.close()
        raise
    return s


def install():
    """replace the process' socket, select and time functions by simulated ones"""
    import socket, select, time, ssl
    REAL.update(socket=socket.socket, time=time.time, sleep=time.sleep, select=select.select)
    socket.socket = SimSocket
    socket.SocketType = SimSocket
    socket.getaddrinfo = sim_getaddrinfo
    socket.create_connection = sim_create_connection
    select.select = sim_select
    ssl.SSLContext = FakeSSLContext
    real_time, real_mono, real_sleep = time.time, time.monotonic, time.sleep
    time.time = lambda: NET.sim.time() if NET is not None else real_time()
    time.monotonic = lambda: NET.sim.now / SEC if NET is not None else real_mono()
    time.perf_counter = time.monotonic

    def sleep(s):
        if NET is None:
            return real_sleep(s)
        NET.sim.sleep_us(int(s * SEC))
    time.sleep = sleep
