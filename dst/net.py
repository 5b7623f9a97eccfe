"""Simulated network and cooperative scheduler of simulated processes.

`socket.create_connection` leads to servers of ours (functions of the request); HTTP (also "https", whose TLS layer is left out) is spoken by the
real http.client and urllib.  Bytes arrive in chunks of chosen sizes; faults happen when connecting, while sending, and at any byte of the answer.
"""
import errno
import http.client
import io
import os
import socket
import threading
import urllib.request

PROXIES = ('http_proxy', 'https_proxy', 'HTTP_PROXY', 'HTTPS_PROXY', 'all_proxy', 'ALL_PROXY')
REAL = {'create': socket.create_connection, 'https': http.client.HTTPSConnection.connect}


def prepare():
    """Once, before the runs are forked: the opener of urllib loads certificates, which takes long."""
    for k in PROXIES:
        os.environ.pop(k, None)
    urllib.request.install_opener(urllib.request.build_opener())


def failure(name):
    if name == 'dns':
        return socket.gaierror(socket.EAI_NONAME, 'Name or service not known')
    if name == 'refused':
        return ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
    if name == 'timeout':
        return TimeoutError('timed out')
    if name == 'reset':
        return ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
    if name == 'unreachable':
        return OSError(errno.ENETUNREACH, 'Network is unreachable')
    raise ValueError(name)


class Request:
    def __init__(self, data):
        head, _, self.body = data.partition(b'\r\n\r\n')
        lines = head.decode('latin-1').split('\r\n')
        self.method, self.path, _ = lines[0].split(' ')
        self.headers = {k.lower(): v for k, v in (x.split(': ', 1) for x in lines[1:])}


class Net:
    """serve(host, request) -> (bytes of the whole HTTP answer, fault or None); a fault is {'kind': 'eof'|'reset'|'timeout', 'at': byte}.
    connecting(host) -> name of a failure or None."""

    def __init__(self, sim, serve, connecting=lambda host: None, chunks=(), point=lambda what: None):
        self.sim, self.serve, self.connecting, self.chunks, self.point = sim, serve, connecting, list(chunks), point
        self.connections = 0
        self.requests = []
        self.reads = 0

    def __enter__(self):
        socket.create_connection = self.create
        net = self

        def connect(conn):
            http.client.HTTPConnection.connect(conn)
        http.client.HTTPSConnection.connect = connect
        return net

    def __exit__(self, *exc):
        socket.create_connection = REAL['create']
        http.client.HTTPSConnection.connect = REAL['https']

    def create(self, address, *args, **kwargs):
        self.connections += 1
        self.point('connect')
        name = self.connecting(address[0])
        if name:
            self.sim.fault('connect/' + name)
            raise failure(name)
        return SimSocket(self, address[0])


class SimSocket:
    def __init__(self, net, host):
        self.net, self.host = net, host
        self.sent = b''
        self.answer = None
        self.fault = None

    def setsockopt(self, *args):
        pass

    def settimeout(self, value):
        pass

    def gettimeout(self):
        return None

    def getsockname(self):
        return ('127.0.0.1', 1)

    getpeername = getsockname

    def fileno(self):
        return -1

    def shutdown(self, how):
        pass

    def close(self):
        pass

    def sendall(self, data, *args):
        self.net.point('send')
        self.sent += bytes(data)

    send = sendall

    def makefile(self, mode='r', buffering=None, **kwargs):
        assert mode == 'rb', mode
        raw = SocketRaw(self)
        return io.BufferedReader(raw, buffering if buffering and buffering > 1 else 8192)

    def recv(self, size, *args):
        self.net.point('recv')
        if self.answer is None:
            request = Request(self.sent)
            self.net.requests.append(request)
            self.answer, self.fault = self.net.serve(self.host, request)
            self.pos = 0
        net, n = self.net, size
        net.reads += 1
        if net.chunks:
            k = net.chunks[net.reads % len(net.chunks)]
            n = min(n, k) if k > 0 else n
        f = self.fault
        if f is not None:
            n = min(n, f['at'] - self.pos)
            if n <= 0:
                net.sim.fault('answer/' + f['kind'])
                if f['kind'] == 'eof':
                    return b''
                raise failure(f['kind'])
        data = self.answer[self.pos:self.pos + n]
        self.pos += len(data)
        return data

    def recv_into(self, buf, nbytes=0, *args):
        data = self.recv(nbytes or len(buf))
        buf[:len(data)] = data
        return len(data)


class SocketRaw(io.RawIOBase):
    def __init__(self, sock):
        super().__init__()
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, buf):
        return self.sock.recv_into(buf)


def answer(status, body, length=True, chunked=False, headers=(), reason='X', sizes=(7, 100, 1)):
    head = f'HTTP/1.1 {status} {reason}\r\n' + ''.join(f'{k}: {v}\r\n' for k, v in headers)
    if chunked:
        out, i, k = b'', 0, 0
        while i < len(body):
            n = sizes[k % len(sizes)]
            part = body[i:i + n]
            out += b'%x\r\n' % len(part) + part + b'\r\n'
            i += n
            k += 1
        return (head + 'Transfer-Encoding: chunked\r\n\r\n').encode('latin-1') + out + b'0\r\n\r\n'
    if length:
        head += f'Content-Length: {len(body)}\r\n'
    return (head + 'Connection: close\r\n\r\n').encode('latin-1') + body


class Scheduler:
    """Runs several clients, each in a thread of its own, one at a time; at every point the next one to go on is chosen by `choices`."""

    def __init__(self, choices):
        self.choices, self.used = list(choices) or [0], 0
        self.turn = {}
        self.alive = []
        self.local = threading.local()
        self.switches = 0

    def me(self):
        return getattr(self.local, 'name', None)

    def choose(self):
        c = self.choices[self.used % len(self.choices)]
        self.used += 1
        return self.alive[c % len(self.alive)]

    def point(self, what=None):
        me = self.me()
        if me is None or len(self.alive) < 2:
            return
        other = self.choose()
        if other != me:
            self.switches += 1
            self.turn[other].release()
            self.turn[me].acquire()

    def run(self, jobs):
        """jobs: {name: function}; returns {name: result or exception}."""
        out, done = {}, threading.Lock()
        done.acquire()
        self.turn = {}
        for name in jobs:
            self.turn[name] = threading.Lock()
            self.turn[name].acquire()
        self.alive = list(jobs)

        def body(name, func):
            self.local.name = name
            self.turn[name].acquire()
            try:
                out[name] = func()
            except BaseException as exc:            # pylint: disable=broad-except
                out[name] = exc
            self.alive.remove(name)
            if self.alive:
                self.turn[self.choose()].release()
            else:
                done.release()

        threads = [threading.Thread(target=body, args=x, daemon=True) for x in jobs.items()]
        for t in threads:
            t.start()
        self.turn[self.choose()].release()
        done.acquire()
        for t in threads:
            t.join()
        return out
