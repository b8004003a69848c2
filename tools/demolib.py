"""Helpers for the demonstrations: a scratch directory, servers, clients and raw connections."""
import os, re, resource, shutil, signal, socket, struct, subprocess, sys, tempfile, time

BUILD = os.path.join(os.getcwd(), '_build')
WD, ENVV, ARG, START, IN, OUT, ERR, TERM, EXIT = range(9)


def msg(t, s=b''):
    if isinstance(s, str):
        s = s.encode()
    return struct.pack('<BI', t, len(s)) + s


class Demo:
    def __init__(self):
        self.d = os.path.realpath(tempfile.mkdtemp(prefix='k8pshdemo.'))
        self.procs, self.pids = [], []
        self.env = {k: v for k, v in os.environ.items() if not k.startswith('K8PSH')}
        self.port = self.freeport()

    @staticmethod
    def freeport():
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        while True:
            p = 21000 + int.from_bytes(os.urandom(2), 'little') % 9000
            try:
                s.bind(('127.0.0.1', p))
                s.close()
                return p
            except OSError:
                s.close()
                s = socket.socket()

    def path(self, *a):
        return os.path.join(self.d, *a)

    def config(self, commands, options='', name='srv', port=None, head='', file='k.conf'):
        with open(self.path(file), 'w') as f:
            f.write('%s\n[%s:%d] %s\n%s\n' % (head, name, port or self.port, options, '\n'.join(commands)))

    def stubs(self):
        os.makedirs(self.path('stubs'), exist_ok=True)
        return self.path('stubs')

    def server(self, *args, name='srv', wait=True, port=None, stubs=True, env=None, preexec=None, stderr=None, binary=None, cwd=None, file='k.conf'):
        a = [binary or os.path.join(BUILD, 'k8pshd'), '-c', self.path(file), '-n', name]
        if stubs:
            a += ['-e', self.stubs()]
        p = subprocess.Popen(a + list(args), stdin=subprocess.DEVNULL, stdout=open(self.path('srv.out'), 'ab'), stderr=stderr or open(self.path('srv.err'), 'ab'),
                             cwd=cwd or self.d, env=env or self.env, start_new_session=True, preexec_fn=preexec)
        self.procs.append(p)
        if wait:
            self.waitport(port or self.port, p)
        return p

    @staticmethod
    def listening(port):
        """Local addresses listening on the port (hexadecimal, from /proc/net/tcp)."""
        out = []
        for f in ('/proc/net/tcp', '/proc/net/tcp6'):
            try:
                for l in open(f).read().split('\n')[1:]:
                    w = l.split()
                    if len(w) > 3 and w[3] == '0A' and int(w[1].split(':')[1], 16) == port:
                        out.append(w[1].split(':')[0])
            except OSError:
                pass
        return out

    def waitport(self, port, p=None, t=10):
        e = time.time() + t
        while time.time() < e:
            if self.listening(port):
                return True
            if p is not None and p.poll() is not None:
                return False
            time.sleep(0.02)
        return False

    def client(self, *args, **k):
        k.setdefault('stdin', subprocess.DEVNULL)
        k.setdefault('stdout', subprocess.PIPE)
        k.setdefault('stderr', subprocess.PIPE)
        k.setdefault('cwd', self.d)
        k.setdefault('env', self.env)
        f = k.pop('file', 'k.conf')
        p = subprocess.Popen([os.path.join(BUILD, 'k8psh'), '-c', self.path(f)] + list(args), start_new_session=True, **k)
        self.procs.append(p)
        return p

    def run(self, *args, input=None, timeout=20, **k):
        if input is not None:
            k['stdin'] = subprocess.PIPE
        p = self.client(*args, **k)
        try:
            o, e = p.communicate(input, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            return 'timeout', o, e
        return p.returncode, o, e

    def connect(self, port=None, timeout=10):
        s = socket.create_connection(('127.0.0.1', port or self.port), timeout=timeout)
        return s

    def start(self, s, command, args=(), env=(), wd=''):
        s.sendall(msg(WD, wd) + b''.join(msg(ARG, a) for a in args) + b''.join(msg(ENVV, a) for a in env) + msg(START, command))

    @staticmethod
    def messages(s, until=None):
        """All messages until end of stream (or a message of type until)."""
        out, buf = [], b''
        while True:
            try:
                b = s.recv(65536)
            except (ConnectionError, socket.timeout) as e:
                out.append((type(e).__name__, b''))
                return out
            if not b:
                return out
            buf += b
            while len(buf) >= 5:
                t, n = struct.unpack('<BI', buf[:5])
                if t == EXIT:
                    out.append((t, n))
                    buf = buf[5:]
                else:
                    if len(buf) < 5 + n:
                        break
                    out.append((t, buf[5:5 + n]))
                    buf = buf[5 + n:]
                if until is not None and t == until:
                    return out

    def wait(self, cond, t=8):
        e = time.time() + t
        while time.time() < e:
            if cond():
                return True
            time.sleep(0.03)
        return bool(cond())

    def read(self, *a):
        try:
            return open(self.path(*a), 'rb').read()
        except OSError:
            return None

    def ended(self, p, t=8):
        try:
            p.wait(t)
            return True
        except subprocess.TimeoutExpired:
            return False

    def close(self):
        for p in self.procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                p.kill()
            except OSError:
                pass
            p.wait()
        for pid in self.pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(self.d, ignore_errors=True)


def main(f):
    d = Demo()
    try:
        r = f(d)
    except BaseException:
        import traceback
        traceback.print_exc()
        r = 'the demonstration failed to run'
    finally:
        d.close()
    if r:
        print('BROKEN:', r)
        sys.exit(1)
    print('ok')
    sys.exit(0)
