"""Property monitors (first part): descriptors, processes, signals, sockets."""
from pbase import *
import libc as LC


class C03(PMon):
    id = 'C03'
    rule = 'the address given to every bind/connect has family AF_INET and first byte 127 on every path; listen only on descriptors bound so'
    need = {'connect': 1, 'listen': 1, 'bind': 1}

    def addr(self, st, name, p):
        I = self.I
        p = st.resolve(p)
        self.ob(name)
        if not isP(p):
            self.bad(st, 'address', '%s with an address that is not a known object' % name)
            return False

        def byte(off, n):
            v = I.load(st, I.padd(st, p, off), n, 8 * n)[0][1]
            return st.const(v) if isinstance(v, V) else v
        fam, b = byte(0, 2), byte(4, 1)
        if not (isinstance(fam, int) and fam == 2):
            self.bad(st, 'address', '%s with an address family that is not definitely AF_INET' % name, show(fam))
            return False
        if not (isinstance(b, int) and b == 127):
            self.bad(st, 'address', '%s with an address that is not definitely in 127.0.0.0/8' % name, show(b))
            return False
        return True

    def pre(self, st, name, args):
        if name == 'bind' or name == 'connect':
            ok = self.addr(st, name, args[1])
            st.g['mustok'] = frozenset((args[0],)) if ok and isinstance(args[0], V) else frozenset()
        elif name == 'send' and len(args) >= 6 and not (isinstance(args[4], int) and args[4] == 0):
            self.addr(st, 'sendto', args[4])
        elif name == 'listen':
            self.ob('listen')
            fd = args[0]
            if fd not in st.g.get('mustbound', ()):
                self.bad(st, 'listen', 'listen on a socket that is not bound to a loopback address on every path', show(fd))

    def post(self, st, name, args, ret, err):
        if name == 'bind' and not err and args[0] in st.g.get('mustok', ()):
            st.g['mustbound'] = st.g.get('mustbound', frozenset()) | {args[0]}
        elif name == 'close':
            st.g['mustbound'] = st.g.get('mustbound', frozenset()) - {args[0]}


REMOVERS = ('unlink', 'unlinkat', 'remove', 'rename', 'renameat', 'rmdir', 'link', 'linkat', 'symlink', 'symlinkat', 'truncate', 'ftruncate')


class C04(PMon):
    id = 'C04'
    rule = ('no path of a connection handler or command process reaches a call that removes or creates names, accepts, listens or binds, or waits on the listening socket; '
            'the server process never transfers data on a connection, never waits for a handler inside its accept loop and survives transient accept errors')
    need = {'handler entry states': 1, 'handler ends': 1, 'accept': 1, 'handler call sites': 10}
    keyed = ()

    def forked(self, st):
        return self.role(st) in FORKED

    def pre(self, st, name, args):
        r = self.role(st)
        if r in FORKED:
            self.ob('handler call sites')
            if name in REMOVERS:
                self.bad(st, 'cleanup', 'a %s process can reach %s()' % (r, name))
            if name in ('accept', 'listen', 'bind'):
                self.bad(st, 'accept', 'a %s process can reach %s()' % (r, name))
            if name == 'poll':
                for x, fd, ev in self.pollset(st, args[0], args[1]) or ():
                    for q in self.fds(st, fd) or ():
                        if kind(q) == 'sock':
                            self.bad(st, 'accept', 'a %s process waits on the listening socket' % r)
            if r != 'handler' and name in ('recv', 'send') and any(kind(q) == 'conn' for q in self.fds(st, args[0]) or ()):
                self.bad(st, 'command', 'the process of the command uses the connection')
        elif r in ('server', 'main', 'launcher'):
            if name in ('recv', 'send', 'read', 'write') and any(kind(q) == 'conn' for q in self.fds(st, args[0]) or ()):
                self.bad(st, 'inprocess', 'the server process transfers data on a connection')
            if r == 'server' and self.onlistener(st, name, args):
                self.ob('accept')
                if st.g.get('k_blk'):
                    self.bad(st, 'blocked', 'the server waits for a child process before it accepts the next connection')
                st.g['k_acce'] = 0
            if name == 'poll' and r == 'server':
                for x, fd, ev in self.pollset(st, args[0], args[1]) or ():
                    if any(kind(q) == 'conn' for q in self.fds(st, fd) or ()):
                        self.bad(st, 'inprocess', 'the server process waits on a connection')

    def onlistener(self, st, name, args):
        if name == 'accept':
            return True
        return name == 'poll' and any(kind(q) == 'sock' for x, fd, ev in self.pollset(st, args[0], args[1]) or () for q in self.fds(st, fd) or ())

    def post(self, st, name, args, ret, err):
        r = self.role(st)
        if name == 'Process::run' and r != 'handler':
            self.bad(st, 'inprocess', 'a connection is handled in the %s process' % r)
        if r == 'server':
            if name == 'waitpid' and not err and not (isinstance(ret, int) and ret == 0) and not (isinstance(args[2], int) and args[2] & 1):
                st.g['k_blk'] = 1
            if name == 'accept':
                if err:
                    st.g['k_acce'] = 1
                    st.g['acce'] = st.resolve(self.I.load(st, M.ERRNO, 4, 32)[0][1])

    def transient(self, st):
        if st.g.get('k_acce') and self.role(st) == 'server':
            e = st.g.get('acce')
            r = st.range(e) if isinstance(e, (V, int)) else TOP
            for n, t in ((4, 'EINTR'), (11, 'EAGAIN'), (103, 'ECONNABORTED'), (24, 'EMFILE'), (23, 'ENFILE'), (105, 'ENOBUFS'), (12, 'ENOMEM')):
                if r_contains(r, n):
                    return t
        return None

    def event(self, st, ev, **k):
        if ev == 'throw':
            t = self.transient(st)
            if t:
                self.bad(st, 'transient', 'the server fails when accept reports %s' % t)

    def end(self, st, how, status):
        if self.role(st) in FORKED:
            self.ob('handler ends')
        t = None if how == 'exit' and st.const(status) == 0 else self.transient(st)
        if t:
            self.bad(st, 'transient', 'the server ends when accept reports %s' % t)

    def split_end(self, st, kind):
        self.ob('handler ends')


class C11(PMon):
    id = 'C11'
    rule = ('at exec, the set of descriptors that may be open (close-on-exec ones excepted) is exactly the three pipe ends mapped to 0, 1 and 2; '
            'at every wait or receive of the handler no listening socket and no pipe end of the command may be open; at every wait of the server no connection may be open')
    need = {'exec': 1, 'handler waits': 1, 'server waits': 1}
    keyed = ('fd',)

    def __init__(self):
        PMon.__init__(self)
        self.cmdends = set()
        self.hopen = {}

    def cloexec(self, st, v):
        st.g['mustcx'] = st.g.get('mustcx', frozenset()) | {v}

    def post(self, st, name, args, ret, err):
        if err:
            return
        if name == 'fcntl' and isinstance(args[1], int):
            if args[1] == 2 and isinstance(args[2], int) and args[2] & 1 and isinstance(args[0], V):
                self.cloexec(st, args[0])
            elif args[1] == 1030 and isinstance(ret, V):
                self.cloexec(st, ret)
        fl = {'socket': 1, 'accept': 3, 'open': 1, 'open64': 1, 'openat': 2, 'openat64': 2}.get(name)
        if fl is not None and len(args) > fl and isinstance(ret, V):
            f = st.resolve(args[fl])
            if isinstance(f, int) and f & 0o2000000:
                self.cloexec(st, ret)
        if name == 'pipe' and len(args) == 2 and isinstance(args[1], int) and args[1] & 0o2000000:
            for x in st.g.get('lastpipe', ()):
                self.cloexec(st, x)
        if name == 'dup2' and isinstance(args[1], int) and args[1] > 2:
            st.g['mayopen'] = st.g.get('mayopen', frozenset()) | {mk('fd', 'dup', args[1])}
        if name == 'fork' and isinstance(ret, V) and self.role(st) == 'handler':
            st.g['k_forked'] = 1

    def name(self, x):
        return {'sock': 'a listening or client socket', 'conn': 'the client connection', 'piper': 'the reading end of a pipe', 'pipew': 'the writing end of a pipe',
                'file': 'a file'}.get(kind(x), 'a descriptor')

    def pre(self, st, name, args):
        r = self.role(st)
        op = st.g.get('mayopen', frozenset())
        if name.startswith('exec') or name.startswith('posix_spawn') or name in ('system', 'popen'):
            self.ob('exec')
            if r != 'command':
                self.bad(st, 'exec', 'a program is started from the %s process itself' % r)
                return
            left = op - st.g.get('mustcx', frozenset())
            for x in sorted(left, key=lambda v: (kind(v) or '', id(v))):
                self.bad(st, 'leak', '%s may still be open when the command starts' % self.name(x), show(x))
            std = [st.g.get(LC.KF(self.I.models, n)) for n in range(3)]
            for n, (x, k) in enumerate(zip(std, ('piper', 'pipew', 'pipew'))):
                if kind(x) != k:
                    self.bad(st, 'streams', 'descriptor %d of the command is not definitely connected to the %s end of a pipe' % (n, 'reading' if n == 0 else 'writing'), show(x))
            toks = [x for x in std if isinstance(x, V)]
            pair = {}
            for a, b in st.g.get('mustpair', ()):
                pair[a] = pair[b] = (a, b)
            ps = [pair.get(x, x) for x in toks]
            if len(set(ps)) != len(ps):
                self.bad(st, 'streams', 'two standard streams of the command share a pipe')
            for x in toks:
                self.cmdends.add(x)
        elif name in ('poll', 'recv') and r == 'handler':
            self.ob('handler waits')
            for x in op:
                if kind(x) == 'sock':
                    self.bad(st, 'listener', 'the process handling a connection keeps the listening socket open')
            if st.g.get('k_forked') and name == 'poll':
                self.hopen.setdefault(op, (st, self.I.where(), self.I.stacktrace()))
        elif name in ('poll', 'accept') and r == 'server':
            self.ob('server waits')
            for x in op:
                if kind(x) == 'conn':
                    self.bad(st, 'connection', 'the server still holds a connection that it has handed over')

    def finish(self):
        from interp import Violation
        for op, (st, where, stack) in self.hopen.items():
            for x in op & self.cmdends:
                v = Violation('ends', 'the process handling a connection keeps %s that belongs to the command' % self.name(x), where, stack, show(x))
                self.violations.setdefault(v.key(), v)


class C25(PMon):
    id = 'C25'
    rule = 'at every exec in the command process the disposition of SIGPIPE, SIGCHLD, SIGTERM, SIGINT (and SIGHUP unless daemonized) is not "ignore" and no signal mask was set, on every path'
    need = {'exec': 1, 'signal': 3}
    keyed = ('sig', 'daemon')
    NAMES = {13: 'SIGPIPE', 17: 'SIGCHLD', 15: 'SIGTERM', 2: 'SIGINT', 1: 'SIGHUP'}

    def pre(self, st, name, args):
        if name == 'signal':
            self.ob('signal')
        if name.startswith('exec') or name.startswith('posix_spawn'):
            self.ob('exec')
            d = st.g.get('k_daemon')
            for s, n in self.NAMES.items():
                if s == 1 and d:
                    continue
                h = st.g.get('k_sig%d' % s)
                if h in ('IGN', '?'):
                    self.bad(st, 'disposition', 'the command is started with %s ignored' % n)
            if st.g.get('k_sigmask'):
                self.bad(st, 'mask', 'the command is started with signals blocked')


BASELEN = mk('s', LN, mk('f', mk('o', 'cfg'), 0))


class C24(PMon):
    id = 'C24'
    rule = 'exec is reached only through the success outcome of chdir (to base directory + received directory) and of three dup2 calls onto 0, 1 and 2'
    need = {'exec': 1, 'chdir': 1, 'dup2': 1, 'directories': 1}
    shapes = True

    def post(self, st, name, args, ret, err):
        r = self.role(st)
        if r not in ('handler', 'command'):
            return
        d = st.g.get('k_done', frozenset())
        if name == 'chdir' or name == 'fchdir':
            self.ob('chdir')
            if name == 'chdir' and not err:
                s = self.I.models.cstr(st, args[0])
                why = self.dir(st, s)
                if why:
                    self.bad(st, 'directory', 'the directory changed to is %s' % why, show(s))
            st.g['k_done'] = d - {'chdir'} if err else d | {'chdir'}
        elif name == 'dup2' and r == 'command' and isinstance(args[1], int) and 0 <= args[1] <= 2:
            self.ob('dup2')
            k = 'fd%d' % args[1]
            st.g['k_done'] = d - {k} if err else d | {k}
        elif name == 'close' and isinstance(args[0], int) and 0 <= args[0] <= 2:
            st.g['k_done'] = d - {'fd%d' % args[0]}

    def branch(self, st, e, t):
        """Whether the configured base directory is empty."""
        while isinstance(e, V) and e.tag == 'op' and e.a[0] == 'not':
            e, t = e.a[1], not t
        if isinstance(e, V) and e.tag == 'op' and e.a[0] == 'icmp' and BASELEN in (e.a[2], e.a[3]):
            r = st.range(BASELEN)
            st.g['k_be'] = 1 if r == R_set(0) else 0 if not r_contains(r, 0) else None

    def dir(self, st, s):
        if s is None:
            return 'unknown'
        for x in shapes(s):
            x = tuple(p for p in x)
            self.site('directories', ' '.join(x))
            if not x or x == ('cfg.0', '=/', 'in'):
                continue
            if x == ('in',):
                if st.g.get('k_be') == 1:
                    continue
                return 'the received directory without the base directory'
            if len(x) == 1 and ':' in x[0]:
                w, _, p = x[0].rpartition(':')
                if set(w.split('.')) <= set(('normalizePath', 'getAbsolutePath')) and set(p.split('+')) == set(('cfg.0', 'in')):
                    continue
            return 'not the base directory followed by the received directory (%s)' % ' '.join(x)
        return None

    def pre(self, st, name, args):
        if name.startswith('exec') or name.startswith('posix_spawn') or name in ('system', 'popen'):
            self.ob('exec')
            d = st.g.get('k_done', frozenset())
            if 'chdir' not in d:
                self.bad(st, 'chdir', 'a command can be executed although changing to the requested directory failed or did not happen')
            for n in range(3):
                if 'fd%d' % n not in d:
                    self.bad(st, 'streams', 'a command can be executed although standard stream %d was not connected' % n)


ALL = {c.id: c for c in (C03, C04, C11, C25, C24)}

import props2 as _p2
import props3 as _p3
import props4 as _p4
import props5 as _p5
import props6 as _p6
import props7 as _p7
for _c in list(vars(_p2).values()) + list(vars(_p3).values()) + list(vars(_p4).values()) + list(vars(_p5).values()) + list(vars(_p6).values()) + list(vars(_p7).values()):
    if isinstance(_c, type) and issubclass(_c, PMon) and _c.id:
        ALL[_c.id] = _c
