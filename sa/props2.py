"""Property monitors (second part): processes, files and waiting."""
from pbase import *
import libc as LC


class C15(PMon):
    id = 'C15'
    rule = ('in the process handling a connection, every end (return, exception, exit, abort) and every wait after the connection was lost is reached only with the command reaped or signalled; '
            'kill is called only with the pid of the unreaped command and a terminating signal; after it the command is no longer relayed; nothing written while it runs can raise SIGPIPE')
    need = {'kill': 1, 'handler ends': 2, 'commands started': 1, 'writes while the command runs': 2}
    keyed = ('wait',)

    def post(self, st, name, args, ret, err):
        if name == 'signal' and isinstance(args[0], int) and args[0] == 13:
            h = args[1]
            st.g['k_s13'] = 'DFL' if isinstance(h, int) and h == 0 else 'IGN' if isinstance(h, int) and h == 1 or isinstance(h, V) and h.tag == 'F' else '?'
        if self.role(st) != 'handler':
            return
        if name == 'fork' and isinstance(ret, V):
            self.ob('commands started')
            st.g['k_cmd'] = 'run'
            st.g['cmdpid'] = ret
        elif name == 'waitpid' and not err and not (isinstance(ret, int) and ret == 0) and st.g.get('k_ws') in ('exit', 'sig'):
            if args[0] is st.g.get('cmdpid') or isinstance(args[0], int):
                st.g['k_cmd'] = 'reaped'
        elif name == 'kill':
            if st.g.get('k_cmd') == 'run':
                st.g['k_cmd'] = 'killed'
        elif name == 'recv' and (err or isinstance(ret, int) and ret == 0) and any(kind(q) == 'conn' for q in self.fds(st, args[0]) or ()):
            st.g['k_gone'] = 'err' if err else 'eof'
            if err:
                st.g['gonee'] = st.resolve(self.I.load(st, M.ERRNO, 4, 32)[0][1])
        elif name == 'recv':
            st.g['k_gone'] = 0

    def gone(self, st):
        k = st.g.get('k_gone')
        if k == 'err':
            e = st.g.get('gonee')
            r = st.range(e) if isinstance(e, (int, V)) else TOP
            return not (r[0] == 'set' and r[1] <= {4, 11})
        return k == 'eof'

    def pre(self, st, name, args):
        if self.role(st) != 'handler':
            return
        if st.g.get('k_ws') != 'stop' and name != 'waitpid':
            st.g['k_ws'] = None
        c = st.g.get('k_cmd')
        if name == 'kill':
            self.ob('kill')
            if args[0] is not st.g.get('cmdpid') or c is None:
                self.bad(st, 'pid', 'a signal is sent to something other than the command', show(args[0]))
            if c == 'reaped':
                self.bad(st, 'reaped', 'a signal can be sent to a command that has already been collected')
            s = st.resolve(args[1])
            if not (isinstance(s, int) and s in (1, 2, 3, 9, 15)):
                self.bad(st, 'signal', 'the signal sent to the command does not terminate it', show(s))
        elif name in ('poll', 'waitpid', 'sleep') and c == 'run' and self.gone(st) and not (name == 'waitpid' and isinstance(args[2], int) and args[2] & 1) and \
                not (name == 'poll' and not self.blocking(st, args)):
            self.bad(st, 'ignored', 'the process keeps waiting for the command after the connection was lost, without terminating it')
        elif c == 'killed' and (name == 'read' and any(kind(q) == 'piper' for q in self.fds(st, args[0]) or ()) or
                                name == 'poll' and any(kind(q) in ('piper', 'pipew') for x, fd, ev in self.pollset(st, args[0], args[1]) or () for q in self.fds(st, fd) or ())):
            self.bad(st, 'served', 'a command is signalled although it is still being served')
        elif name in ('send', 'write') and c == 'run' and any(kind(q) in ('conn', 'pipew') for q in self.fds(st, args[0]) or ()):
            self.ob('writes while the command runs')
            h = st.g.get('k_s13')
            fl = args[3] if name == 'send' and len(args) > 3 else 0
            if h in (None, 'DFL', '?') and not (isinstance(fl, int) and fl & 0x4000):
                self.bad(st, 'sigpipe', 'writing can raise SIGPIPE, which ends the process without terminating the command')

    def left(self, st):
        if self.role(st) == 'handler':
            self.ob('handler ends')
            if st.g.get('k_cmd') == 'run':
                self.bad(st, 'left', 'the process handling the connection ends while the command may still be running, without terminating it')

    def end(self, st, how, status):
        self.left(st)

    def split_end(self, st, kind):
        self.left(st)


SAFE = frozenset(('close', 'write', 'read', '_exit', '_Exit', 'kill', 'raise', 'signal', 'sigaction', 'sigprocmask', 'sigemptyset', 'sigaddset', 'sigfillset', 'poll', 'send', 'recv',
                  'shutdown', 'dup2', 'fcntl', 'fcntl64', 'getpid', 'unlink', 'alarm', 'wait', 'waitpid', 'abort', '__errno_location', '__clang_call_terminate', '_Unwind_Resume',
                  'memcpy', 'memset', 'memmove', 'strlen', '__gxx_personality_v0', 'sendto', 'pipe', 'pipe2', 'time', 'clock_gettime', '_ZSt9terminatev'))


class C12(PMon):
    id = 'C12'
    rule = ('at every wait on the listening socket SIGTERM, SIGINT and (unless daemonized) SIGHUP have an unblocked handler; the handler reaches only async-signal-safe functions and makes a descriptor '
            'ready that this wait includes; the channel is not kept open by connection processes; the readiness is tested after every wait and leads to an orderly end, never to another wait or accept; '
            'the server blocks nowhere else')
    need = {'waits on the listening socket': 1, 'handlers analysed': 1, 'handler call graph': 2, 'accept': 1, 'reactions': 1}
    keyed = ('sig', 'daemon', 'poll')
    runs_split = False
    NAMES = {15: 'SIGTERM', 2: 'SIGINT', 1: 'SIGHUP'}

    def __init__(self):
        PMon.__init__(self)
        self.sim = None
        self.graph = {}

    # the handler's call graph
    def walk(self, st, sym):
        if sym in self.graph:
            return
        self.graph[sym] = 1
        f = self.I.p.fns.get(sym)
        if f is None:
            return
        self.site('handler call graph', f.name)
        if not f.blocks:
            n = f.meth or f.name
            if not (f.sym in SAFE or n in SAFE or f.sym.startswith('llvm.') or n.startswith('llvm.')):
                self.bad(st, 'unsafe', 'the signal handler can reach %s, which is not async-signal-safe' % f.name[:80])
            return
        self.I.decode(f)
        for b in f.blocks:
            for i in b:
                if i['o'] in ('call', 'invoke'):
                    c = i['fn']
                    if c[0] == 'c' and isinstance(c[1], V) and c[1].tag == 'F':
                        self.walk(st, c[1].a[0])
                    elif c[0] == 'r':
                        self.bad(st, 'unsafe', 'the signal handler calls through a pointer')

    def simulate(self, st, sym):
        """Descriptors closed or written by the handler on every path."""
        f = self.I.p.fns.get(sym)
        if f is None or not f.blocks:
            return frozenset()
        self.site('handlers analysed', sym)
        self.walk(st, sym)
        s = st.copy()
        s.g['mustdid'] = frozenset()
        old, self.sim = self.sim, True
        try:
            out = self.I.run(f, s, [15], 0, ('handler', sym))
        finally:
            self.sim = old
        res = None
        for kind, s2, v in out:
            d = s2.g.get('mustdid', frozenset())
            res = d if res is None else res & d
        return res or frozenset()

    def pre(self, st, name, args):
        if self.sim:
            return
        r = self.role(st)
        if r != 'server':
            return
        if name == 'poll':
            ps = self.pollset(st, args[0], args[1])
            cands = [(x, q, ev) for x, fd, ev in ps or () for q in self.fds(st, fd) or ()]
            if not any(kind(q) == 'sock' for x, q, ev in cands):
                if st.g.get('k_pw') == 'unk':
                    pass
                return
            self.ob('waits on the listening socket')
            if st.g.get('k_pw') == 'unk':
                self.bad(st, 'missed', 'the server can wait again without having tested whether a signal arrived')
            elif st.g.get('k_pw') == 'set':
                self.bad(st, 'continues', 'the server keeps waiting for connections after a signal')
            if st.g.get('k_sigmask'):
                self.bad(st, 'blocked', 'signals can be blocked while the server waits')
            pairs = st.g.get('mustpair', ())
            polled = {q: ev for x, q, ev in cands}
            wake = None
            for s, n in self.NAMES.items():
                h = st.g.get('k_sig%d' % s)
                if s == 1 and st.g.get('k_daemon'):
                    if h in (None, 'DFL'):
                        pass
                    continue
                if not isinstance(h, str) or h in ('DFL', 'IGN', '?'):
                    self.bad(st, 'disposition', '%s does not have a handler while the server waits for connections' % n, str(h))
                    continue
                did = self.simulate(st, h)
                w = set()
                for act, fd in did:
                    for a, b in pairs:
                        other = b if fd is a else a if fd is b else None
                        if other in polled and (act == 'close' or isinstance(polled[other], int) and polled[other] & 1) and (fd is b or act == 'close'):
                            w.add((other, 0x10 if act == 'close' else 1))
                            if act == 'close':
                                st.g['k_chan'] = st.g.get('k_chan', frozenset()) | {fd}
                if not w:
                    self.bad(st, 'wake', 'the handler of %s does not make any descriptor ready that the server waits for' % n)
                wake = w if wake is None else wake & w
            st.g['k_wake'] = frozenset(wake or ())
            st.g['k_lr'] = 0
        elif name == 'accept':
            self.ob('accept')
            if st.g.get('k_pw') == 'set':
                self.bad(st, 'continues', 'the server accepts a connection after a signal')
            elif args[0] not in st.g.get('mustnb', ()) and not (st.g.get('k_poll') == 'some' and (st.g.get('k_pw') == 'clear' or st.g.get('k_lr'))):
                self.bad(st, 'blocks', 'accept can block although no connection is pending, and a signal does not wake it up')

    def post(self, st, name, args, ret, err):
        if self.sim:
            if name in ('close', 'write', 'send') and not err:
                st.g['mustdid'] = st.g.get('mustdid', frozenset()) | {('close' if name == 'close' else 'write', args[0])}
            return
        if name == 'Process::run':
            for x in st.g.get('k_chan', ()):
                if x in st.g.get('mayopen', ()):
                    self.bad(st, 'inherited', 'the process handling a connection keeps the signal channel open, so closing it does not wake up the server')
        if self.role(st) != 'server':
            return
        if name == 'poll':
            st.g['k_pw'] = 'unk' if not err and not isinstance(ret, int) and st.g.get('k_wake') else 'clear'
            if err:
                st.g['polle'] = st.resolve(self.I.load(st, M.ERRNO, 4, 32)[0][1])
        elif name == 'fcntl' and not err and isinstance(args[1], int) and args[1] == 4:
            v = args[2]
            if isinstance(v, int) and v & 0o4000 or isinstance(v, V) and v.tag == 'op' and v.a[0] == 'or' and isinstance(v.a[2], int) and v.a[2] & 0o4000:
                st.g['mustnb'] = st.g.get('mustnb', frozenset()) | {args[0]}

    def branch(self, st, e, t):
        if self.sim or self.role(st) != 'server' or st.g.get('k_pw') is None:
            return
        rs = self.I.models.revs(e)
        if not rs:
            return
        b = bit_test(e, t)
        if b is None:
            return
        mask, nz = b
        wake = st.g.get('k_wake', ())
        want = {}
        for r, k in mask.items():
            if isinstance(r, V) and r.tag == 'op' and r.a[0] == 'rev':
                want[r] = k
        if nz and len(want) == 1:
            r, k = next(iter(want.items()))
            if kind(r.a[1]) == 'sock' and k & 1:
                st.g['k_lr'] = 1
        if st.g.get('k_pw') == 'unk':
            hit = [r for r, k in want.items() if any(r.a[1] is fd and k & m for fd, m in wake)]
            if hit:
                self.ob('reactions')
                if not nz:
                    st.g['k_pw'] = 'clear'
                elif len(want) == 1:
                    st.g['k_pw'] = 'set'

    def event(self, st, ev, **k):
        if ev == 'throw' and not self.sim and self.role(st) == 'server':
            if st.g.get('k_pw') == 'set':
                self.bad(st, 'orderly', 'a signal leads to an error instead of an orderly shutdown')
            if st.g.get('k_poll') == 'err':
                e = st.g.get('polle')
                if isinstance(e, (int, V)) and r_contains(st.range(e), 4) and st.g.get('k_wake') is not None:
                    self.bad(st, 'orderly', 'an interrupted wait ends the server with an error')

    def end(self, st, how, status):
        if not self.sim and self.role(st) == 'server' and st.g.get('k_pw') == 'set' and not (how == 'exit' and st.const(status) == 0):
            self.bad(st, 'orderly', 'a signal leads to a failing or abrupt end of the server')


class Files(PMon):
    """Common parts of C13 and C14: the files that a server creates, by label of their path."""
    keyed = ('daemon',)
    runs_split = False
    OPTS = {b'-k': 'k', b'--keep-client-executables': 'k', b'-d': 'r', b'--disable-client-executables': 'r', b'-o': 'r', b'--overwrite-client-executables': 'r'}
    options = True

    def __init__(self):
        PMon.__init__(self)
        self.vecs = set()

    def call(self, st, f, args, ins):
        if f.name.startswith('Configuration::load'):
            st.g['k_cfg'] = 1
        return None

    def relabel(self, st, i, labels):
        """Every copy of the string i in memory carries exactly these labels from now on (a provenance mark 'cwd' is kept)."""
        for k, o in list(st.m.items()):
            c = None
            for off, (n, v) in o.c.items():
                if isinstance(v, V) and v.tag == 'S' and v.a[0] is i:
                    if c is None:
                        c = dict(o.c)
                    c[off] = (n, mk('S', v.a[0], v.a[1], frozenset(labels) | (v.a[2] & {'cwd'})))
            if c is not None:
                st.m[k] = Obj(c, o.b)

    def branch(self, st, e, t):
        if st.g.get('k_cfg') and self.options and t and isinstance(e, V) and e.tag == 'op' and e.a[0] == 'streq' and self.role(st) in ('main', 'server'):
            y = e.a[2]
            o = self.OPTS.get(y.a[0]) if isinstance(y, V) and y.tag == 'lit' else None
            if o:
                st.g['k_opt'] = st.g.get('k_opt', frozenset()) | {o}
                self.site('option literals', y.a[0])

    def creating(self, st, name, args):
        """Notes that a file is about to be created; returns the flags."""
        fl = 0o1101 if name == 'creat' else st.resolve(args[1])
        if name.startswith('fopen'):
            md = self.path(st, args[1])
            md = md.a[0].a[0] if md is not None and md.a[0].tag == 'lit' else b'w'
            fl = (0o100 if b'w' in md or b'a' in md else 0) | (0o200 if b'x' in md else 0)
        new = not isinstance(fl, int) or fl & 0o100
        if new:
            s = self.path(st, args[0])
            if s is not None:
                self.relabel(st, s.a[0], {'pid?'})
        st.g['k_creating'] = 1 if new else 0
        return fl, new

    def created(self, st, name, args, ret, err):
        st.g['k_creating'] = 0
        if not err:
            s = self.path(st, args[0])
            if s is not None:
                self.relabel(st, s.a[0], {'pid'})
            st.g['k_pidc'] = 1

    def opt(self, st, o):
        return o in st.g.get('k_opt', ())

    def onlistener(self, st, name, args):
        if self.role(st) != 'server':
            return False
        if name == 'accept':
            return True
        return name == 'poll' and any(kind(q) == 'sock' for x, fd, ev in self.pollset(st, args[0], args[1]) or () for q in self.fds(st, fd) or ())

    def path(self, st, p):
        s = self.I.models.cstr(st, p)
        return s if isinstance(s, V) and s.tag == 'S' else None


UNLINKS = {'unlink': 0, 'remove': 0, 'rmdir': 0, 'unlinkat': 1, 'rename': 0, 'renameat': 1}


class C13(Files):
    keyed = ()
    id = 'C13'
    rule = ('in a listening server every path that it created a name at is recorded before the next step that can end it, is removed on every end (also by exception) unless the keep option was seen, '
            'never earlier and never with the keep option; no other path is removed or replaced unless the overwrite or disable option was seen; a name that could not be created ends the server with an error')
    need = {'names created': 1, 'removals': 1, 'server ends': 2, 'option literals': 6}

    def mark(self, L):
        return L - {'cwd'} == {'cr'}

    def call(self, st, f, args, ins):
        return Files.call(self, st, f, args, ins)

    def append(self, st, loc, cells):
        for c in cells:
            v = c[2] if isinstance(c, tuple) and len(c) == 3 else None
            if isinstance(v, V) and v.tag == 'S' and self.mark(v.a[2]):
                st.g['k_pend'] = 0
                self.vecs.add(loc)
        return cells

    def pre(self, st, name, args):
        r = self.role(st)
        if name in UNLINKS and st.g.get('k_cfg'):
            if r == 'launcher':
                self.bad(st, 'launcher', 'the process that started the daemon can remove files')
                return
            if r not in ('main', 'server'):
                return
            self.ob('removals')
            s = self.path(st, args[UNLINKS[name]])
            L = s.a[2] if s is not None else frozenset(('?',))
            if self.mark(L):
                if self.opt(st, 'k') and r == 'server':
                    self.bad(st, 'kept', 'client executables can be removed although the option to keep them was given')
                if st.g.get('k_chd') and 'cwd' not in L:
                    self.bad(st, 'directory', 'client executables are removed by a path that may be relative after the working directory was changed')
                st.g['k_unl'] = 1
                st.g['k_all'] = 0
                for loc in self.vecs:
                    c = st.get(loc.a[0], loc.a[1])
                    if c and isinstance(c[1], V) and c[1].tag == 'vec' and isinstance(c[1].a[2], int) and c[1].a[2] == 1:
                        st.g['k_all'] = 1
            elif L - {'cwd'} == {'pid'}:
                pass
            elif not self.opt(st, 'r'):
                self.bad(st, 'foreign', 'a file that the server did not create can be removed without the overwrite or disable option', show(s))
            if name.startswith('rename') and not self.opt(st, 'r'):
                self.bad(st, 'replace', 'an existing file can be replaced without the overwrite or disable option')
        elif name in ('open', 'open64', 'creat', 'fopen', 'fopen64') and st.g.get('k_cfg') and r in ('main', 'server'):
            fl, new = self.creating(st, name, args)
            risky = not isinstance(fl, int) or (fl & 0o1000) != 0 or (fl & 0o100) != 0 and not fl & 0o200
            if risky and not self.opt(st, 'r'):
                self.bad(st, 'replace', 'an existing file can be replaced without the overwrite or disable option')
        elif name in ('symlink', 'link', 'symlinkat', 'linkat') and st.g.get('k_cfg') and r in ('main', 'server'):
            if st.g.get('k_pend'):
                self.bad(st, 'forgotten', 'a created client executable is not recorded for removal')
        elif name in ('poll', 'accept') and self.onlistener(st, name, args):
            if st.g.get('k_unl'):
                self.bad(st, 'early', 'client executables are removed while the server still waits for connections')
            if st.g.get('k_pend'):
                self.bad(st, 'forgotten', 'a created client executable is not recorded for removal')
            if st.g.get('k_ex'):
                self.bad(st, 'exists', 'the server carries on although a client executable could not be created')

    def post(self, st, name, args, ret, err):
        r = self.role(st)
        if name in ('symlink', 'link', 'symlinkat', 'linkat') and st.g.get('k_cfg') and r in ('main', 'server'):
            self.ob('names created')
            if err:
                st.g['k_ex'] = 1
                return
            st.g['k_ex'] = 0
            st.g['k_cr'] = st.g['k_pend'] = 1
            st.g['k_chd'] = 0
            s = self.path(st, args[-1 if name != 'linkat' else 3])
            if s is None:
                self.bad(st, 'path', 'a name is created at a path that is not known')
            else:
                self.relabel(st, s.a[0], {'cr'})
        elif st.g.get('k_creating') and name in ('open', 'open64', 'creat', 'fopen', 'fopen64'):
            self.created(st, name, args, ret, err)
        elif name in ('chdir', 'fchdir', 'chroot') and not err and r == 'server' and st.g.get('k_cr'):
            st.g['k_chd'] = 1

    def branch(self, st, e, t):
        Files.branch(self, st, e, t)
        if st.g.get('k_unl') and not st.g.get('k_all') and isinstance(e, V) and e.tag == 'op' and e.a[0] == 'icmp':
            for loc in self.vecs:
                c = st.get(loc.a[0], loc.a[1])
                v = c[1] if c else None
                if isinstance(v, V) and v.tag == 'vec':
                    n = syms(v.a[2]) if isinstance(v.a[2], V) else ()
                    if isinstance(v.a[2], V) and not n:
                        n = frozenset((v.a[2],))
                    if n and n <= syms(e):
                        st.g['k_all'] = 1

    def end(self, st, how, status):
        r = self.role(st)
        if r == 'server':
            self.ob('server ends', x=(self.I.where(), how, st.const(status) if status is not None else None))
            if st.g.get('k_pend'):
                self.bad(st, 'forgotten', 'the server can end while a created client executable is not recorded for removal')
            elif st.g.get('k_cr') and not st.g.get('k_unl') and not self.opt(st, 'k'):
                self.bad(st, 'left', 'the server can end without removing the client executables it created')
            elif st.g.get('k_unl') and not st.g.get('k_all'):
                self.bad(st, 'partial', 'the removal of client executables can stop before all are removed')
        if r in ('server', 'main') and st.g.get('k_ex') and how in ('exit', '_exit', 'quick_exit', '_Exit') and st.const(status) == 0:
            self.bad(st, 'exists', 'the server reports success although a client executable could not be created')


class C14(Files):
    id = 'C14'
    rule = ('the daemon creates its PID file exclusively, writes the number returned by getpid in the daemon itself to it completely and fails otherwise; it is removed by that path on every end of the daemon and only '
            'by the process that created it, never before; the launching process removes nothing')
    need = {'PID files created': 1, 'PID file contents': 1, 'removals': 1, 'daemon ends': 1}
    options = False

    def pre(self, st, name, args):
        r = self.role(st)
        g = st.g
        if not g.get('k_cfg') or r not in ('main', 'server', 'launcher'):
            return
        if g.get('k_pid') == 'writing':
            w = g.get('pidput')
            ok = w is not None and eval_cmp(st, 'eq', w.a[0], w.a[1], 64) is True
            g['k_pid'] = 'wrote' if ok else 'short'
        if name in UNLINKS:
            s = self.path(st, args[UNLINKS[name]])
            L = s.a[2] if s is not None else frozenset()
            if r == 'launcher':
                self.bad(st, 'launcher', 'the process that started the daemon can remove files')
            elif 'pid?' in L or 'pid' in L:
                self.ob('removals')
                if L - {'cwd'} != {'pid'} or g.get('k_pid') in (None, 'failed'):
                    self.bad(st, 'foreign', 'a PID file that this process did not create can be removed')
                elif g.get('k_chd') and 'cwd' not in L:
                    self.bad(st, 'directory', 'the PID file is removed by a path that may be relative after the working directory was changed')
                else:
                    g['k_pid'] = 'gone'
            elif g.get('k_daemon') and not L & {'cfg', 'cr'}:
                self.bad(st, 'foreign', 'a PID file that this process did not create can be removed')
        elif name in ('open', 'open64', 'creat', 'fopen', 'fopen64'):
            fl, new = self.creating(st, name, args)
            if new:
                self.ob('PID files created')
                if not isinstance(fl, int) or not fl & 0o200:
                    self.bad(st, 'exclusive', 'the PID file is not created exclusively')
                if not g.get('k_daemon'):
                    self.bad(st, 'owner', 'the PID file is created outside the daemon')
        elif name in ('write', 'pwrite') and g.get('k_pid') == 'created' and args[0] is g.get('pidfd'):
            self.ob('PID file contents')
            s = self.I.models.cstr(st, args[1])
            i = s.a[0] if isinstance(s, V) and s.tag == 'S' else None
            parts = i.a[0] if i is not None and i.tag == 'cat' else (i,)
            first = parts[0]
            txt = show(first, -4) if first is not None else ''
            rest = all(x.tag == 'lit' and not x.a[0].strip() for x in parts[1:]) if i is not None else False
            good = isinstance(first, V) and first.tag == 'app' and first.a[0] == 'to_string' and isinstance(first.a[1], V) and first.a[1].tag == 'op' and first.a[1].a[0] == 'getpid'
            if i is not None and i.tag in ('cat', 'app', 'lit'):
                if not good or not rest:
                    self.bad(st, 'contents', 'the PID file does not contain exactly the process ID', txt)
                elif not first.a[1].a[2] or first.a[1].a[1] not in ('server', 'main'):
                    self.bad(st, 'contents', 'the PID file does not contain the process ID of the daemon itself', txt)
                elif not (isinstance(s.a[1], (int, V)) and eval_cmp(st, 'eq', s.a[1], args[2], 64) is True):
                    self.bad(st, 'contents', 'the PID file is not written completely')
        elif name in ('poll', 'accept') and self.onlistener(st, name, args) and g.get('k_daemon'):
            k = g.get('k_pid')
            if k == 'failed':
                self.bad(st, 'ignored', 'the daemon runs although its PID file could not be created')
            elif k in ('created', 'short'):
                self.bad(st, 'contents', 'the daemon runs although its process ID was not completely written to the PID file')
            elif k == 'gone':
                self.bad(st, 'early', 'the PID file is removed while the daemon still waits for connections')
            elif k is None and not g.get('k_noname'):
                self.bad(st, 'missing', 'the daemon can run without having created its PID file')

    def post(self, st, name, args, ret, err):
        r = self.role(st)
        g = st.g
        if not g.get('k_cfg') or r not in ('main', 'server'):
            return
        if name in ('open', 'open64', 'creat', 'fopen', 'fopen64') and g.get('k_creating'):
            self.created(st, name, args, ret, err)
            if err:
                g['k_pid'] = 'failed'
            else:
                g['k_pid'] = 'created' if not name.startswith('fopen') else 'wrote'
                g['pidfd'] = ret
                g['k_chd'] = 0
        elif name in ('write', 'pwrite') and g.get('k_pid') == 'created' and args[0] is g.get('pidfd'):
            if err:
                g['k_pid'] = 'short'
            else:
                g['k_pid'] = 'writing'
                g['pidput'] = mk('pair', ret, args[2])
        elif name in ('chdir', 'fchdir', 'chroot') and not err and g.get('k_pid'):
            g['k_chd'] = 1

    def branch(self, st, e, t):
        g = st.g
        if g.get('k_daemon') and g.get('k_pid') is None and not g.get('k_noname') and self.role(st) == 'server' and isinstance(e, V) and e.tag == 'op' and e.a[0] == 'icmp':
            p = e.a[1] if t else INV[e.a[1]]
            x, y = e.a[2], e.a[3]
            if p == 'eq' and (isinstance(x, int) and x == 0 or isinstance(y, int) and y == 0):
                n = y if isinstance(x, int) else x
                for o in st.m.values():
                    if any(isinstance(v, V) and v.tag == 'S' and v.a[1] is n for q, v in o.c.values()):
                        g['k_noname'] = 1
                        break

    def end(self, st, how, status):
        if self.role(st) == 'server' and st.g.get('k_daemon'):
            self.ob('daemon ends', x=(self.I.where(), how))
        if self.role(st) in ('server', 'main') and st.g.get('k_pid') in ('created', 'wrote', 'writing', 'short'):
            self.bad(st, 'left', 'the daemon can end without removing its PID file')
