"""A minimal MQTT 3.1.1 client and a broker under test, for the demonstrations."""
import os, shutil, socket, struct, subprocess, sys, tempfile, time

BIN = os.path.join(os.getcwd(), 'target/debug/ratelmq')
TOOL = os.path.join(os.getcwd(), 'target/debug/ratelmq-passwd')


def free_port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


def passwd(path, user, password=None, delete=False):
    a = [TOOL, '-f', path, '-u', user] + (['-d'] if delete else ['-p', password])
    return subprocess.run(a, capture_output=True, text=True).returncode


class Broker:
    def __init__(self, users=(), passwd_text=None, env=None, listeners=None):
        self.dir = tempfile.mkdtemp(prefix='rmq')
        self.port = free_port()
        self.pw = os.path.join(self.dir, 'passwd')
        open(self.pw, 'w').write(passwd_text or '')
        for u, p in users:
            passwd(self.pw, u, p)
        self.conf = os.path.join(self.dir, 'ratelmq.toml')
        open(self.conf, 'w').write('[mqtt]\nlisteners_tcp = ["%s"]\n[authentication]\npassword_file = "%s"\n' % (listeners or '127.0.0.1:%d' % self.port, self.pw))
        self.p = subprocess.Popen([BIN, '-c', self.conf], cwd=self.dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, **(env or {})))
        for _ in range(200):
            try:
                socket.create_connection(('127.0.0.1', self.port), 1).close()
                break
            except OSError:
                time.sleep(0.02)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.p.kill()
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def s(t):
    b = t if isinstance(t, bytes) else t.encode()
    return struct.pack('>H', len(b)) + b


def rl(n):
    o = b''
    while True:
        d, n = n % 128, n // 128
        o += bytes([d | (128 if n else 0)])
        if not n:
            return o


def pkt(first, body):
    return bytes([first]) + rl(len(body)) + body


def connect(cid, user=None, pw=None, clean=True):
    f = (2 if clean else 0) | (128 if user is not None else 0) | (64 if pw is not None else 0)
    b = s('MQTT') + bytes([4, f]) + struct.pack('>H', 60) + s(cid)
    if user is not None:
        b += s(user)
    if pw is not None:
        b += s(pw)
    return pkt(0x10, b)


def publish(topic, payload, qos=0, pid=1, flags=0):
    b = s(topic) + (struct.pack('>H', pid) if qos else b'') + payload
    return pkt(0x30 | qos << 1 | flags, b)


def subscribe(pid, *filters):
    return pkt(0x82, struct.pack('>H', pid) + b''.join(s(f) + b'\0' for f in filters))


def unsubscribe(pid, *filters):
    return pkt(0xA2, struct.pack('>H', pid) + b''.join(s(f) for f in filters))


PING, DISC = b'\xc0\0', b'\xe0\0'


class Client:
    def __init__(self, broker, cid=None, **kw):
        self.s = socket.create_connection(('127.0.0.1', broker.port), 5)
        self.s.settimeout(5)
        self.b = b''
        if cid is not None:
            self.send(connect(cid, **kw))
            self.ack = self.recv()
            assert self.ack and self.ack[0] == 0x20, self.ack

    def send(self, b):
        self.s.sendall(b)

    def recv(self, timeout=5):
        """(first byte, body), or None at the end of the stream / after the time limit"""
        end = time.time() + timeout
        while True:
            n = shift = 0
            i = 1
            while i < len(self.b):
                n |= (self.b[i] & 127) << shift
                shift += 7
                i += 1
                if not self.b[i - 1] & 128:
                    if len(self.b) >= i + n:
                        r = (self.b[0], self.b[i:i + n])
                        self.b = self.b[i + n:]
                        return r
                    break
            left = end - time.time()
            if left <= 0:
                return None
            self.s.settimeout(left)
            try:
                d = self.s.recv(65536)
            except (socket.timeout, ConnectionError):
                return None
            if not d:
                return None
            self.b += d

    def sub(self, *f):
        self.send(subscribe(7, *f))
        r = self.recv()
        assert r == (0x90, b'\0\7' + b'\0' * len(f)), r

    def unsub(self, *f):
        self.send(unsubscribe(8, *f))
        r = self.recv()
        assert r == (0xB0, b'\0\x08'), r

    def ping(self):
        self.send(PING)
        r = self.recv()
        return r == (0xD0, b'')

    def pub(self, t, p, **kw):
        self.send(publish(t, p, **kw))

    def message(self, timeout=5):
        r = self.recv(timeout)
        if r is None:
            return None
        assert r[0] >> 4 == 3, r
        if len(r[1]) < 2:
            return None
        n = r[1][0] << 8 | r[1][1]
        return r[0], r[1][2:2 + n], r[1][2 + n:]

    def close(self):
        self.s.close()


def check(c, what):
    if not c:
        print('FAILED:', what)
        sys.exit(1)
