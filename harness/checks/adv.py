"""A scripted KATCP peer (server side) for the client monitors.

It speaks raw bytes through its own codec, records every request line it gets and does whatever a
scenario tells it to: reorder, duplicate, drop, cut, close, refuse, announce.
"""
import socket

from tornado.ioloop import IOLoop  # noqa: F401

from . import wire

READ, WRITE, ERROR = 0x001, 0x004, 0x008 | 0x010


class Conn(object):
    def __init__(self, server, sock, idx):
        self.server, self.sock, self.idx = server, sock, idx
        self.loop = server.loop
        sock.setblocking(False)
        sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.t_open = self.loop.time()
        self.t_close = None          # when this side saw or caused the end
        self.closed_by = None        # 'server' or 'peer'
        self.inbuf = b''
        self.out = b''
        self.lines = []              # (time, raw line)
        self.sent = []               # (time, raw line)
        self.reading = True
        self.open = True
        self._state = READ
        self.loop.add_handler(sock.fileno(), self._event, READ | ERROR)
        self.fd = sock.fileno()

    def _update(self):
        if not self.open:
            return
        want = (READ if self.reading else 0) | (WRITE if self.out else 0)
        if want != self._state:
            self._state = want
            self.loop.update_handler(self.fd, want | ERROR)

    def pause(self):
        self.reading = False
        self._update()

    def resume(self):
        self.reading = True
        self._update()

    def _event(self, fd, events):
        if not self.open:
            return
        if events & WRITE:
            self._flush()
        if self.open and events & (READ | 0x010 | 0x008) and (self.reading or events & 0x018):
            while self.open:
                try:
                    data = self.sock.recv(65536)
                except BlockingIOError:
                    break
                except OSError:
                    data = b''
                if not data:
                    self._end('peer')
                    return
                self.inbuf += data
                self._lines()
                if not self.reading:
                    break

    def _lines(self):
        while b'\n' in self.inbuf and self.open:
            line, self.inbuf = self.inbuf.split(b'\n', 1)
            self.lines.append((self.loop.time(), line))
            self.server.on_line(self, line)

    def _flush(self):
        try:
            n = self.sock.send(self.out)
            self.out = self.out[n:]
        except BlockingIOError:
            pass
        except OSError:
            self._end('peer')
            return
        self._update()

    def write(self, data):
        if not self.open:
            return False
        self.out += data
        self._flush()
        return self.open

    def say(self, line, eol=b'\n'):
        """Send one line; True iff it was handed to the kernel while the connection was open."""
        if not self.open:
            return False
        self.sent.append((self.loop.time(), line))
        return self.write(line + eol)

    def _end(self, who):
        if not self.open:
            return
        self.open = False
        self.t_close, self.closed_by = self.loop.time(), who
        try:
            self.loop.remove_handler(self.fd)
        except Exception:
            pass
        self.sock.close()
        self.server.on_close(self)

    def close(self, rst=False):
        if self.open and rst:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                                 b'\x01\x00\x00\x00\x00\x00\x00\x00')
        self._end('server')


class AdvServer(object):
    """All methods must run in the loop's thread (or before it starts)."""

    def __init__(self, loop, greet=(), on_request=None):
        self.loop = loop
        self.greet = greet            # lines, or callable(conn)
        self.on_request = on_request  # callable(conn, (mtype, name, mid, args))
        self.conns = []
        self.accept_mode = 'normal'   # or 'slam': accept and close at once
        self.listening = False
        self.garbage = []
        self.port = 0
        self.sock = None
        self.connects = []            # times of accepted connections
        self._bind()

    def _bind(self):
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(('127.0.0.1', self.port))
        s.setblocking(False)
        self.port = s.getsockname()[1]
        self.sock = s

    @property
    def addr(self):
        return ('127.0.0.1', self.port)

    def up(self):
        if not self.listening:
            self.sock.listen(64)
            self.loop.add_handler(self.sock.fileno(), self._accept, READ)
            self.listening = True

    def down(self, drop=True, rst=False):
        """Refuse connections from now on (the port stays reserved)."""
        if self.listening:
            self.loop.remove_handler(self.sock.fileno())
            self.sock.close()
            self.listening = False
            self._bind()
        if drop:
            self.drop(rst)

    def drop(self, rst=False):
        for c in self.conns:
            c.close(rst)

    def finish(self):
        self.down()
        self.sock.close()

    def _accept(self, fd, events):
        while self.listening:
            try:
                s, _ = self.sock.accept()
            except OSError:
                return
            if self.accept_mode == 'slam':
                s.close()
                self.connects.append(self.loop.time())
                continue
            c = Conn(self, s, len(self.conns))
            self.conns.append(c)
            self.connects.append(self.loop.time())
            for line in (self.greet(c) if callable(self.greet) else self.greet):
                c.say(line)

    def on_line(self, conn, line):
        try:
            m = wire.decode(line.rstrip(b'\r'))
        except wire.Bad:
            self.garbage.append(line)
            return
        if self.on_request is not None:
            self.on_request(conn, m)

    def on_close(self, conn):
        pass

    def current(self):
        """The newest open connection or None."""
        for c in reversed(self.conns):
            if c.open:
                return c
        return None


GREETS = {
    '5-MI': [b'#version-connect katcp-protocol 5.0-MI', b'#version-connect katcp-library lib-1.0',
             b'#version-connect katcp-device dev-1.0 build-1'],
    '5-M': [b'#version-connect katcp-protocol 5.0-M'],
    '5.1-MIB': [b'#version-connect katcp-device d-1.0', b'#version-connect katcp-protocol 5.1-IMB'],
    '4': [b'#version verif-1.0', b'#build-state b-1.0'],
    '4b': [b'#build-state b-1.0', b'#version verif-1.0'],
    'none': [],
}
HAS_IDS = {'5-MI': True, '5-M': False, '5.1-MIB': True, '4': False, '4b': False, 'none': False}
