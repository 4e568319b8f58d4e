"""Builds the server of the current directory, starts it on a free port in a scratch directory, talks RESP to it."""
import atexit, os, shutil, signal, socket, subprocess, sys, tempfile, time

class Err(str):
    pass

class Conn:
    def __init__(self, port):
        self.s = socket.create_connection(("127.0.0.1", port), timeout=10)
        self.b = b""
    def raw(self, data):
        self.s.sendall(data)
    def send(self, *a):
        o = b"*%d\r\n" % len(a)
        for x in a:
            if not isinstance(x, bytes):
                x = str(x).encode()
            o += b"$%d\r\n%s\r\n" % (len(x), x)
        self.s.sendall(o)
    def _more(self):
        d = self.s.recv(65536)
        if not d:
            raise EOFError("connection closed")
        self.b += d
    def _line(self):
        while b"\r\n" not in self.b:
            self._more()
        l, self.b = self.b.split(b"\r\n", 1)
        return l
    def reply(self):
        l = self._line()
        t, r = l[:1], l[1:]
        if t == b"+":
            return r.decode("latin1")
        if t == b"-":
            return Err(r.decode("latin1"))
        if t == b":":
            return int(r)
        if t == b"$":
            n = int(r)
            if n < 0:
                return None
            while len(self.b) < n + 2:
                self._more()
            v, self.b = self.b[:n], self.b[n + 2:]
            return v.decode("latin1")
        if t == b"*":
            n = int(r)
            return None if n < 0 else [self.reply() for _ in range(n)]
        raise ValueError("bad reply %r" % l)
    def do(self, *a):
        self.send(*a)
        return self.reply()
    def close(self):
        self.s.close()

class Server:
    def __init__(self, *flags):
        self.dir = tempfile.mkdtemp(prefix="demo")
        atexit.register(self.stop)
        exe = os.path.join(self.dir, "server")
        env = dict(os.environ, GOFLAGS="-mod=mod -buildvcs=false")
        subprocess.run(["go", "build", "-o", exe, "."], check=True, env=env)
        s = socket.socket(); s.bind(("127.0.0.1", 0)); self.port = s.getsockname()[1]; s.close()
        self.p = subprocess.Popen([exe, "-port", str(self.port), "-logdir", self.dir, *flags], cwd=self.dir,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(200):
            try:
                socket.create_connection(("127.0.0.1", self.port), timeout=1).close()
                return
            except OSError:
                time.sleep(0.05)
        sys.exit("server does not start")
    def conn(self):
        return Conn(self.port)
    def alive(self):
        return self.p.poll() is None
    def stop(self):
        if getattr(self, "p", None) and self.p.poll() is None:
            self.p.kill(); self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

bad = []
def expect(what, got, want):
    if got != want:
        bad.append("%s: got %r, want %r" % (what, got, want))
def finish():
    for b in bad:
        print(b)
    sys.exit(1 if bad else 0)
