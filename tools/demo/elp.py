# Small client and launcher for the built openelpd, used by demo.sh (cwd is the repository).
import hashlib, os, shutil, signal, socket, struct, subprocess, sys, tempfile, time
B = 77
def ip(c, d): return '127.%d.%d.%d' % (B, c, d)
TCP_OPEN, TCP_DATA, TCP_CLOSE, TCP_STATUS, UDP_DATA, UDP_CTL = 1, 2, 3, 4, 5, 6
class Proxy:
    def __init__(self, slots=1, password='secret', port=8100, extra='', args=('-F', '-q'), wait=True, exe='_build/src/openelpd'):
        self.dir = tempfile.mkdtemp(prefix='elpdemo'); self.port = port; self.password = password
        conf = 'Password=%s\nPort=%d\nBindAddress=%s\nExternalBindAddress=%s\n' % (password, port, ip(0, 1), ip(1, 1))
        if slots > 1: conf += 'AdditionalExternalBindAddresses=%s\n' % ','.join(ip(1, i) for i in range(2, slots + 1))
        self.conf = self.dir + '/ELProxy.conf'; open(self.conf, 'w').write(conf + extra)
        self.p = subprocess.Popen([os.path.abspath(exe)] + list(args) + [self.conf], stdin=subprocess.DEVNULL, stdout=open(self.dir + '/out', 'wb'), stderr=open(self.dir + '/err', 'wb'), cwd=self.dir)
        if wait:
            for _ in range(200):
                if self.p.poll() is not None: break
                if self.listening(): break
                time.sleep(0.05)
    def listening(self):
        want = '%02X%02X%02X%02X:%04X' % (1, 0, B, 127, self.port)
        return any(l.split()[1] == want and l.split()[3] == '0A' for l in open('/proc/net/tcp').readlines()[1:])
    def alive(self): return self.p.poll() is None
    def stop(self, sig=signal.SIGKILL):
        if self.p.poll() is None: self.p.send_signal(sig)
        try: self.p.wait(20)
        except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
    def __enter__(self): return self
    def __exit__(self, *a): self.stop()
def response(digits, password): return hashlib.md5(password.upper().encode('latin1') + digits).digest()
class Gone(Exception): pass
class Client:
    def __init__(self, px, timeout=10):
        self.px = px; self.s = socket.socket(); self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.settimeout(timeout); self.s.connect((ip(0, 1), px.port)); self.buf = b''
    def need(self, n):
        while len(self.buf) < n:
            try: d = self.s.recv(65536)
            except ConnectionError: d = b''
            if not d: raise Gone(self.buf)
            self.buf += d
        r, self.buf = self.buf[:n], self.buf[n:]; return r
    def challenge(self): self.digits = self.need(8); return self.digits
    def greet(self, call, pw=None, answer=None):
        self.s.sendall(call.encode('latin1') + b'\n' + (answer or response(self.digits, pw if pw is not None else self.px.password)))
    def login(self, call='K1ABC', pw=None):
        self.challenge(); self.greet(call, pw); return self
    def ready(self):  # proves that the session is up: TCP_DATA without a connection is answered by TCP_CLOSE
        self.send(TCP_DATA, data=b'x')
        m = self.msg(); assert m[0] == TCP_CLOSE, m; return self
    def send(self, t, addr='0.0.0.0', data=b'', size=None): self.s.sendall(self.enc(t, addr, data, size))
    @staticmethod
    def enc(t, addr='0.0.0.0', data=b'', size=None): return struct.pack('<B4sI', t, socket.inet_aton(addr), len(data) if size is None else size) + data
    def msg(self):
        t, a, n = struct.unpack('<B4sI', self.need(9)); return t, socket.inet_ntoa(a), self.need(n)
    def gone(self, timeout=5):
        self.s.settimeout(timeout)
        try: return self.s.recv(1) == b''
        except ConnectionError: return True
        except socket.timeout: return False
    def silent(self, secs=0.7):
        self.s.settimeout(secs)
        try: d = self.s.recv(65536); self.buf += d; return False
        except socket.timeout: return True
        except ConnectionError: return False
        finally: self.s.settimeout(10)
    def close(self, rst=False):
        if rst: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        self.s.close()
def udp(addr, port, timeout=5):
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind((addr, port)); s.settimeout(timeout); return s
def listener(addr, port=5200, timeout=5):
    s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind((addr, port)); s.listen(8); s.settimeout(timeout); return s
def check(cond, what):
    if not cond: print('FAIL: ' + what); sys.stdout.flush(); raise SystemExit(1)
def greeted(px, tries=100):  # a connection that got its challenge (the proxy may still be busy with the previous one)
    for _ in range(tries):
        c = Client(px)
        try: c.challenge(); return c
        except (Gone, OSError): c.close(); time.sleep(0.05)
    raise SystemExit('no challenge')
def session(px, call='K1ABC', pw=None):
    c = greeted(px); c.greet(call, pw); return c.ready()
