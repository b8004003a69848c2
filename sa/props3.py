"""Property monitors (third part): failures, waiting and shutdown."""
from pbase import *
import libc as LC


EXITS = ('exit', '_exit', 'quick_exit', '_Exit')


class C20(PMon):
    id = 'C20'
    rule = ('from the failing outcome of an operation that a mode depends on (loading the configuration, socket, bind, listen, connect, creating names and the PID file, forking, changing the directory, connecting the '
            "command's streams, executing, writing received output) no path reaches a successful end of that process, a wait for connections or an exec; nor does any path from a thrown error")
    need = {'operations that can fail': 8, 'successful ends': 2}
    ALWAYS = {'socket': 'creating a socket', 'bind': 'binding the listening socket', 'listen': 'listening', 'connect': 'connecting to the server', 'symlink': 'creating a client executable',
              'fork': 'creating a process', 'fwrite': 'writing received output', 'fflush': 'writing received output', 'pipe': 'creating a pipe', 'pipe2': 'creating a pipe',
              'Utilities::readFile': 'reading the configuration'}

    def essential(self, st, name, args):
        r = self.role(st)
        if name in self.ALWAYS:
            if name in ('fwrite', 'fflush') and not (args and self.std(args[-1])):
                return None
            return self.ALWAYS[name]
        if name in ('chdir', 'fchdir') and r in FORKED:
            return 'changing to the requested directory'
        if name == 'dup2' and r in FORKED and isinstance(args[1], int) and 0 <= args[1] <= 2:
            return 'connecting a stream of the command'
        if name in ('open', 'open64', 'creat'):
            return 'opening a file'
        return None

    @staticmethod
    def std(p):
        return True

    def fail(self, st, what):
        st.g['k_fail'] = what

    def post(self, st, name, args, ret, err):
        if self.reading:
            if name in self.FILEOPS and err:
                st.g['k_fail'] = self.FILEOPS[name]
            return
        w = self.essential(st, name, args)
        if w is None:
            return
        self.ob('operations that can fail', x='%s in %s' % (w, self.I.where()))
        if err:
            self.fail(st, w)
        elif name == 'connect' and st.g.get('k_fail') == w or name in ('execv',):
            st.g['k_fail'] = None

    def pre(self, st, name, args):
        f = st.g.get('k_fail')
        if name.startswith('exec') and name != 'exit':
            if f and f != 'executing the command':
                self.bad(st, 'exec', 'a command can be executed although %s failed' % f)
            self.ob('operations that can fail', x='executing the command in %s' % (self.I.where(),))
            self.fail(st, 'executing the command')
        elif f and name in ('poll', 'accept'):
            if name == 'accept' or self.blocking(st, args):
                self.bad(st, 'carries on', 'a process can carry on waiting although %s failed' % f)
        elif f and name in ('recv', 'waitpid') and self.role(st) in FORKED:
            self.bad(st, 'carries on', 'a process can carry on although %s failed' % f)

    def event(self, st, ev, **k):
        if ev == 'throw' and not self.reading and not st.g.get('k_fail'):
            st.g['k_fail'] = 'an operation that reported an error'

    def end(self, st, how, status):
        f = st.g.get('k_fail')
        if how in EXITS:
            c = st.const(status)
            s = st.range(status) if isinstance(status, (int, V)) else TOP
            zero = (c & 255) == 0 if isinstance(c, int) else r_contains(s, 0)
            if zero and not f:
                self.ob('successful ends')
            if zero and f:
                self.bad(st, 'success', 'the process can end successfully although %s failed' % f)

    FILEOPS = {'fopen': 'opening a file', 'fopen64': 'opening a file', 'fread': 'reading a file', 'open': 'opening a file', 'read': 'reading a file'}

    def finish(self):
        """Reading a file: a result exists only if the file was opened and completely read."""
        f = self.fn('Utilities::readFile')
        if f is None or len(f.params) < 2:
            return
        import driver
        st = driver.start_state(self.I)[0]
        self.reading = True
        out = self.outarg(st, 'result')
        arg, v = self.strarg(st, 'filename', 'argv')
        try:
            for kind, s2, x in self.I.run(f, st, [out, arg], 0, 'readFile'):
                if kind == 'ret':
                    self.site('results of reading a file', (kind, s2.g.get('k_fail')))
                    e = s2.get(out.a[0], 32)
                    e = s2.resolve(e[1]) if e else None
                    if s2.g.get('k_fail') and not (isinstance(e, int) and e == 0) and not (isinstance(e, V) and s2.const(e) == 0):
                        self.bad(s2, 'partial', 'the contents of a file can be reported although %s failed' % s2.g['k_fail'])
        finally:
            self.reading = False

    reading = False

    def split_end(self, st, kind):
        f = st.g.get('k_fail')
        if kind == 'ret' and f:
            self.bad(st, 'success', 'the process handling a connection can end successfully although %s failed' % f)


def connected(self, st):
    return self.role(st) in ('handler', 'main') and (st.g.get('k_role') == 'handler' or st.g.get('k_con'))


class Window(PMon):
    """Knows the buffers that messages are received in and the two counters that delimit their unread part."""

    def __init__(self):
        PMon.__init__(self)
        self.recvbufs = set()

    def window(self, st, loc):
        """The two counters next to a receive buffer."""
        o = st.m.get(loc.a[0])
        if o is None:
            return None
        c = [v for off, (n, v) in sorted((q, x) for q, x in o.c.items() if isinstance(q, int)) if n == 8 and off >= loc.a[1] + loc.a[2] and not isP(v)]
        return c[:2] if len(c) >= 2 else None

    def empty(self, st, loc):
        w = self.window(st, loc)
        if w is None:
            return True
        a, b = st.resolve(w[0]), st.resolve(w[1])
        if a is b or a == b:
            return True
        d = lin_add(a, b, -1) if isinstance(a, (int, V)) and isinstance(b, (int, V)) else None
        return d is not None and (d == 0 if isinstance(d, int) else st.range(d) == R_set(0))

    def received(self, st, args):
        p = args[1]
        if isP(p) and p.a[0].tag == 'sd' and self.window(st, p.a[0]) is not None:
            self.recvbufs.add(p.a[0])
            return p.a[0]
        return None

    def allempty(self, st):
        return all(self.empty(st, l) for l in self.recvbufs if l.a[0] in st.m)


class C16(Window):
    id = 'C16'
    rule = ('at every wait (poll with a timeout other than 0, recv, waitpid) and at every successful end, every byte stored in a buffer from which messages are sent has been given to send, everything written to a '
            'stdio stream has been flushed, and at a blocking poll the window of unread bytes in the receive buffer is empty')
    need = {'blocking waits': 2, 'send buffers': 1, 'receive buffers': 1, 'stdio writes': 1}
    keyed = ('poll',)

    def __init__(self):
        Window.__init__(self)
        self.sendbufs, self.pending = set(), []

    def key(self, st):
        if self.recvbufs and self.role(st) in ('handler', 'main'):
            return tuple([self.empty(st, l) for l in sorted(self.recvbufs, key=repr) if l.a[0] in st.m])
        return ()

    def store(self, st, p, size, v):
        if isP(p) and p.a[0].tag == 'sd' and p.a[0] not in self.recvbufs:
            d = st.g.get('k_dirty', frozenset())
            l = p.a[0]
            if l not in d:
                st.g['k_dirty'] = d | {l}

    def held(self, st, what):
        d = st.g.get('k_dirty')
        if d:
            for l in d:
                self.pending.append((st.copy(), l, what, self.I.where(), (list(self.I.stack), self.I.curins)))
        if st.g.get('k_std'):
            self.bad(st, 'stdio', 'output can stay in a stdio buffer while the process %s' % what)

    def pre(self, st, name, args):
        r = self.role(st)
        if r not in ('handler', 'main'):
            return
        if name == 'poll' and self.blocking(st, args):
            self.ob('blocking waits')
            self.held(st, 'waits')
            for l in self.recvbufs:
                if l.a[0] in st.m and not self.empty(st, l):
                    self.bad(st, 'received', 'the process can wait for further input although its receive buffer may hold a complete message')
        elif name == 'recv' and not (len(args) > 3 and isinstance(args[3], int) and args[3] & 0x40):
            self.held(st, 'waits')
        elif name == 'waitpid' and not (isinstance(args[2], int) and args[2] & 1):
            self.held(st, 'waits')

    def post(self, st, name, args, ret, err):
        if name in ('send', 'write') and not err:
            p = args[1]
            if isP(p) and p.a[0].tag == 'sd':
                l = p.a[0]
                if name == 'send':
                    self.sendbufs.add(l)
                    self.site('send buffers', show(l))
                d = st.g.get('k_dirty', frozenset())
                if l in d:
                    st.g['k_dirty'] = d - {l}
        elif name == 'recv' and not err:
            l = self.received(st, args)
            if l is not None:
                self.site('receive buffers', show(l))
        elif name in ('fwrite', 'fputs', 'fputc') and args[-1] not in st.g.get('k_unbuf', ()):
            self.ob('stdio writes')
            st.g['k_std'] = st.g.get('k_std', frozenset()) | {args[-1]}
        elif name in ('fflush', 'fclose') and not (err and name == 'fflush'):
            d = st.g.get('k_std', frozenset())
            st.g['k_std'] = frozenset() if isinstance(args[0], int) else d - {args[0]}
        elif name in ('setvbuf', 'setbuf'):
            if name == 'setbuf' and args[1] == 0 or name == 'setvbuf' and args[2] == 2:
                st.g['k_unbuf'] = st.g.get('k_unbuf', frozenset()) | {args[0]}

    def end(self, st, how, status):
        if self.role(st) in ('main', 'handler') and how in EXITS and how != 'exit':
            self.held(st, 'ends')
        elif self.role(st) in ('main', 'handler') and how == 'exit':
            st.g['k_std'] = frozenset()
            self.held(st, 'ends')

    def split_end(self, st, kind):
        if kind == 'ret':
            self.held(st, 'ends')

    def finish(self):
        for st, l, what, where, stack in self.pending:
            if l in self.sendbufs:
                self.I.stack, self.I.curins = stack
                self.bad(st, 'message', 'a message can stay in the send buffer while the process %s' % what, show(l))
                break


class C17(Window):
    id = 'C17'
    rule = ('no poll includes a descriptor after its end of file was read or after it was closed; between two polls of the same descriptor it is either read, written, accepted on, or the readiness bits that poll always '
            'reports again (input, hang-up) were found to be clear')
    need = {'polled descriptors': 5}
    pollsplit = True

    def __init__(self):
        Window.__init__(self)
        self.polled = set()
    keyed = ('poll',)

    def pre(self, st, name, args):
        if name != 'poll':
            return
        if not self.blocking(st, args) and self.many(args):
            if st.g.get('k_idle') == self.I.where() and self.allempty(st):
                self.bad(st, 'busy', 'the process can keep polling without waiting although there is nothing to be dealt with')
        un = {t: m for t, m in st.g.get('k_un', ())}
        block = self.blocking(st, args)
        for x, fd, ev in self.pollset(st, args[0], args[1]) or ():
            for q in self.fds(st, fd) or ():
                if isinstance(q, int) and (q < 0 or q > (1 << 31)):
                    continue
                self.polled.add(q)
                self.site('polled descriptors', '%s in %s' % (show(q)[:60], self.I.where()))
                if q in st.g.get('k_eof', ()):
                    self.bad(st, 'eof', 'a descriptor is polled again after its end of file was reached or after it was closed', show(q))
                elif isinstance(q, V) and q.tag == 'fd' and q not in st.g.get('mayopen', ()):
                    self.bad(st, 'closed', 'a descriptor is polled after it was closed', show(q))
                if q in un and block:
                    self.bad(st, 'ignored', 'a descriptor is polled again although its readiness (or hang-up) was not dealt with', show(q))

    @staticmethod
    def many(args):
        return isinstance(args[1], int) and args[1] > 1

    def one(self, st, v):
        """The only descriptor that a value can be."""
        qs = [q for q in self.fds(st, v) or () if not (isinstance(q, int) and (q < 0 or q > (1 << 31) - 1))]
        return qs[0] if len(qs) == 1 else None

    def served(self, st, q):
        u = st.g.get('k_un')
        if u:
            st.g['k_un'] = frozenset((t, m) for t, m in u if t is not q and t != q)

    def post(self, st, name, args, ret, err):
        if name == 'poll' and self.blocking(st, args):
            new = set()
            if not err and not (isinstance(ret, int) and ret == 0):
                for x, fd, ev in self.pollset(st, args[0], args[1]) or ():
                    for q in self.fds(st, fd) or ():
                        if isinstance(q, int) and (q < 0 or q > (1 << 31)):
                            continue
                        e = ev if isinstance(ev, int) else 1
                        # what poll reports regardless of the requested events: the other end of a pipe was closed
                        need = (e & 5) | (8 if kind(q) == 'pipew' else 0 if kind(q) in ('sock', 'conn') and e & 1 else 0x10)
                        new.add((q, need))
            st.g['k_un'] = frozenset(new)
            st.g['k_idle'] = None
        elif name == 'poll' and (err or isinstance(ret, int) and ret == 0):
            for x, fd, ev in self.pollset(st, args[0], args[1]) or ():       # there was nothing (more) to be dealt with
                for q in self.fds(st, fd) or ():
                    self.served(st, q)
            if not err and not st.g.get('k_idle') and self.many(args) and self.allempty(st):
                st.g['k_idle'] = self.I.where()
        elif name in ('sleep', 'usleep', 'nanosleep', 'clock_nanosleep', 'std::this_thread::sleep_for', 'std::this_thread::sleep_until'):
            st.g['k_idle'] = None
        elif name in ('read', 'recv', 'accept', 'write', 'send', 'close', 'shutdown', 'dup2'):
            st.g['k_idle'] = None
            if name == 'recv' and not err:
                self.received(st, args)
            q = self.one(st, args[0])
            if q is not None:
                self.served(st, q)
                e = st.g.get('k_eof', frozenset())
                if name in ('read', 'recv') and not err and isinstance(ret, int) and ret == 0 and not (isinstance(args[2], int) and args[2] == 0):
                    st.g['k_eof'] = e | {q}
                elif name == 'close' and isinstance(q, V) and q in self.polled and self.role(st) == 'handler':
                    st.g['k_eof'] = e | {q}
            if name == 'accept' and not err and ret in st.g.get('k_eof', ()):
                st.g['k_eof'] = st.g['k_eof'] - {ret}
        elif name == 'fclose':
            n = self.stdno(args[0])
            if n is not None:
                self.served(st, n)
                st.g['k_eof'] = st.g.get('k_eof', frozenset()) | {n}

    @staticmethod
    def stdno(p):
        t = show(p)
        for n, s in enumerate(('stdin', 'stdout', 'stderr')):
            if s in t:
                return n
        return None

    def branch(self, st, e, t):
        u = st.g.get('k_un')
        if not u:
            return
        rs = self.I.models.revs(e)
        if not rs:
            return
        b = bit_test(e, t)
        if b is None:
            return
        mask, nz = b
        if nz:
            return
        clear = {}
        for r, k in mask.items():
            if isinstance(r, V) and r.tag == 'op' and r.a[0] == 'rev':
                q = self.one(st, r.a[1])
                if q is not None:
                    clear[q] = clear.get(q, 0) | k
        if clear:
            st.g['k_un'] = frozenset((q, m & ~clear.get(q, 0)) for q, m in u if m & ~clear.get(q, 0))
