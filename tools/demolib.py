"""Start the built roster server and talk RESP to it."""
import os, signal, socket, subprocess, sys, tempfile, time, shutil

class Server:
    def __init__(self, max_connection=2000, env=None):
        self.dir = tempfile.mkdtemp(prefix="roster-demo-")
        s = socket.socket(); s.bind(("127.0.0.1", 0)); self.port = s.getsockname()[1]; s.close()
        cfg = os.path.join(self.dir, "config.toml")
        with open(cfg, "w") as f:
            f.write('bind_addr = "127.0.0.1:%d"\nmax_connection = %d\n' % (self.port, max_connection))
        e = dict(os.environ); e["CONFIG_FILE_LOCATION"] = cfg; e.update(env or {})
        self.log = open(os.path.join(self.dir, "log"), "w+")
        self.p = subprocess.Popen([os.path.abspath("target/debug/roster")], env=e, cwd=self.dir,
                                  stdout=self.log, stderr=self.log)
        for _ in range(300):
            try:
                c = Conn(self); c.cmd("PING"); c.close(); break
            except OSError:
                time.sleep(0.05)
        # every thread has its listener by now
        time.sleep(1.5)

    def alive(self):
        return self.p.poll() is None

    def text(self):
        self.log.flush()
        return open(self.log.name, errors="replace").read()

    def stop(self):
        try:
            self.p.kill(); self.p.wait(10)
        except Exception:
            pass
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self): return self
    def __exit__(self, *a): self.stop()

class Closed(OSError): pass

def enc(*args):
    out = b"*%d\r\n" % len(args)
    for a in args:
        if isinstance(a, str): a = a.encode()
        if isinstance(a, int): a = b"%d" % a
        out += b"$%d\r\n%s\r\n" % (len(a), a)
    return out

class Conn:
    def __init__(self, srv, timeout=10, rcvbuf=None):
        self.s = socket.socket()
        if rcvbuf: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(timeout)
        self.s.connect(("127.0.0.1", srv.port))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.b = b""

    def send(self, data): self.s.sendall(data)
    def fill(self):
        d = self.s.recv(65536)
        if not d: raise Closed("closed")
        self.b += d
    def line(self):
        while b"\r\n" not in self.b: self.fill()
        l, self.b = self.b.split(b"\r\n", 1)
        return l
    def take(self, n):
        while len(self.b) < n: self.fill()
        r, self.b = self.b[:n], self.b[n:]
        return r
    def reply(self):
        l = self.line()
        t, r = l[:1], l[1:]
        if t == b"+": return r
        if t == b"-": return ("err", r)
        if t == b":": return int(r)
        if t == b"$":
            n = int(r)
            if n < 0: return None
            d = self.take(n + 2)
            assert d[-2:] == b"\r\n", "bulk not terminated"
            return d[:-2]
        if t == b"*": return [self.reply() for _ in range(int(r))]
        if t == b"%": return {self.reply(): self.reply() for _ in range(int(r))}
        raise AssertionError("not a frame: %r" % l[:80])
    def cmd(self, *a):
        self.send(enc(*a)); return self.reply()
    def close(self): self.s.close()
    def reset(self):
        import struct
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); self.s.close()

def fail(msg):
    print("BROKEN:", msg); sys.exit(1)
