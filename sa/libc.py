"""System and C library calls: outcomes, error states and the process/descriptor ghost state.

Ghost state (State.g):
  k_role   'main' | 'server' (after a successful listen) | 'launcher' | 'handler' | 'command' | 'child'
  k_daemon 1 in the child of the fork that put the server in the background
  k_acc    1 between a successful accept and the fork that hands the connection over
  mayopen  descriptor tokens that may be open in this process
  k_cat    exceptions being handled (innermost last)
"""
from val import *
from state import *
import models as M
from models import libc, LIBC, ERRNO, RUNTIME, mkS, lit, ln, plus

INT_MAX = (1 << 31) - 1


def mkbit(v, i):
    return mk('b', v, i)


def KS(m, x):
    """Ghost variable: disposition of signal x (a number) or 'mask'."""
    return ('k_' if 'sig' in m.I.mon.keyed else '') + 'sig' + str(x)


def KF(m, x):
    return ('k_' if 'fd' in m.I.mon.keyed else '') + 'fd' + str(x)


def KD(m):
    return ('k_' if 'daemon' in m.I.mon.keyed else '') + 'daemon'


def fix(name):
    """Wraps a single-outcome success/failure call returning 0 / -1."""
    def h(m, st, f, args, i):
        return outcomes(m, st, name, args, [(0, None, None), (-1, True, None)])
    return h


def outcomes(m, st, name, args, outs, pre=True):
    """outs: [(value or fn(state)->value, error, fn(state)->False if infeasible)]"""
    if pre:
        m.I.mon.pre(st, name, args)
    res = []
    for n, (v, err, eff) in enumerate(outs):
        s2 = st.copy() if n + 1 < len(outs) else st
        if callable(v):
            v = v(s2)
        if err:
            m.errno(s2, err if isinstance(err, tuple) else None)
        if eff is not None and eff(s2) is False:
            continue
        m.I.mon.post(s2, name, args, v, bool(err))
        res.append(('ret', s2, v))
    return res


@libc('__errno_location')
def _errno(m, st, f, args, i):
    return m.ret(st, ERRNO)


# ---------------------------------------------------------------- processes
@libc('fork', 'vfork')
def _fork(m, st, f, args, i):
    m.I.mon.pre(st, 'fork', args)
    g = st.g
    role = g.get('k_role', 'main')
    if role in ('main', 'server') and g.get('k_acc'):
        c, p = 'handler', role
    elif role in ('main', 'server'):
        c, p = role, 'launcher'
    elif role == 'handler':
        c, p = 'command', role
    else:
        c, p = 'child', role
    out = []
    ch = st.copy()
    ch.g['k_role'] = c
    if p == 'launcher':
        ch.g[KD(m)] = 1
    if c == 'handler':
        ch.g['k_acc'] = 0
    m.I.mon.post(ch, 'fork', args, 0, False)
    out.append(('ret', ch, 0))
    er = st.copy()
    m.errno(er)
    if role in ('main', 'server') and g.get('k_acc'):
        er.g['k_acc'] = 0
    m.I.mon.post(er, 'fork', args, -1, True)
    out.append(('ret', er, -1))
    st.g['k_role'] = p
    if c == 'handler':
        st.g['k_acc'] = 0
    pid = mk('pid', m.fresh(st, 'pid'))
    m.I.mon.post(st, 'fork', args, pid, False)
    out.append(('ret', st, pid))
    return out


@libc('exit', '_exit', 'quick_exit', '_Exit')
def _exit(m, st, f, args, i):
    m.I.mon.pre(st, 'exit', args)
    for s2, v in m.split(st, args[0]):
        m.I.end(s2, f.meth, v)
    return []


@libc('abort', '__clang_call_terminate', 'terminate', '__cxa_call_unexpected', '_ZSt9terminatev', '__assert_fail')
def _abort(m, st, f, args, i):
    m.I.end(st, 'abort' if f.meth == 'abort' else 'terminate', None)
    return []


@libc('waitpid', 'wait', 'wait4', 'wait3')
def _wait(m, st, f, args, i):
    n = f.meth
    pid = st.resolve(args[0]) if n in ('waitpid', 'wait4') else -1
    sp = st.resolve(args[1] if n in ('waitpid', 'wait4') else args[0])
    opt = st.resolve(args[2]) if n in ('waitpid', 'wait4') else 0
    outs = []
    out = []
    m.I.mon.pre(st, 'waitpid', [pid, sp, opt])
    for s1, pv in m.split(st, pid):
        if not (isinstance(opt, int) and not opt & 1):
            s2 = s1.copy()
            m.I.mon.post(s2, 'waitpid', [pv, sp, opt], 0, False)
            out.append(('ret', s2, 0))
        e = s1.copy()
        m.errno(e)
        m.I.mon.post(e, 'waitpid', [pv, sp, opt], -1, True)
        out.append(('ret', e, -1))
        rv = pv if isinstance(pv, V) and pv.tag == 'pid' else mk('pid', m.fresh(s1, 'reaped'))
        kinds = ['exit', 'sig'] + (['stop'] if not (isinstance(opt, int) and not opt & 2) else [])
        for x, kd in enumerate(kinds):
            s2 = s1.copy() if x + 1 < len(kinds) else s1
            if kd == 'exit':
                c = m.fresh(s2, 'code', R_iv(0, 255))
                s2.g['code'] = c
                v = mk('op', 'bitcat', tuple([0] * 8 + [mkbit(c, q) for q in range(8)] + [0] * 16), 32)
            elif kd == 'sig':
                c = m.fresh(s2, 'sig', R_iv(1, 126))
                d = m.fresh(s2, 'core', R_iv(0, 1))
                v = mk('op', 'bitcat', tuple([mkbit(c, q) for q in range(7)] + [mkbit(d, 0)] + [0] * 24), 32)
            else:
                c = m.fresh(s2, 'stopsig', R_iv(0, 255))
                v = mk('op', 'bitcat', tuple([1] * 7 + [0] + [mkbit(c, q) for q in range(8)] + [0] * 16), 32)
            if isP(sp):
                s2 = m.I.store(s2, sp, 4, v)[0]
            s2.g[('k_' if 'wait' in m.I.mon.keyed else '') + 'ws'] = kd
            m.I.mon.post(s2, 'waitpid', [pv, sp, opt], rv, False)
            out.append(('ret', s2, rv))
    return out


@libc('execv', 'execvp', 'execve', 'execvpe', 'execl', 'execlp', 'execle', 'fexecve', 'execveat', 'system', 'popen', 'posix_spawn', 'posix_spawnp')
def _exec(m, st, f, args, i):
    return outcomes(m, st, f.meth, args, [(-1, True, None)])


@libc('kill', 'killpg', 'tgkill', 'raise', 'pthread_kill', 'sigqueue')
def _kill(m, st, f, args, i):
    out = []
    if f.meth != 'kill':
        return outcomes(m, st, f.meth, args, [(0, None, None), (-1, True, None)])
    for s2, pv in m.split(st, args[0]):
        out += outcomes(m, s2, 'kill', [pv] + list(args[1:]), [(0, None, None), (-1, True, None)])
    return out


@libc('getpid')
def _getpid(m, st, f, args, i):
    m.I.mon.pre(st, 'getpid', args)
    return m.ret(st, mk('op', 'getpid', st.g.get('k_role', 'main'), st.g.get(KD(m), 0), 32))


@libc('getppid', 'getuid', 'geteuid', 'gettid')
def _ids(m, st, f, args, i):
    return m.ret(st, m.fresh(st, f.meth, R_iv(1, INT_MAX)))


@libc('setsid')
def _setsid(m, st, f, args, i):
    if st.g.get(KD(m)):  # a forked child is not a process group leader
        return outcomes(m, st, 'setsid', args, [(lambda s: m.fresh(s, 'sid', R_iv(1, INT_MAX)), None, None)])
    return outcomes(m, st, 'setsid', args, [(lambda s: m.fresh(s, 'sid', R_iv(1, INT_MAX)), None, None), (-1, True, None)])


@libc('signal')
def _signal(m, st, f, args, i):
    m.I.mon.pre(st, 'signal', [st.resolve(a) for a in args])
    sig, h = [st.resolve(a) for a in args[:2]]
    if isinstance(sig, int):
        st.g[KS(m, sig)] = h.a[0] if isinstance(h, V) and h.tag == 'F' else {0: 'DFL', 1: 'IGN'}.get(h, '?') if isinstance(h, int) else '?'
    m.I.mon.post(st, 'signal', [sig, h], 0, False)
    return m.ret(st, m.fresh(st, 'oldh'))


@libc('sigaction')
def _sigaction(m, st, f, args, i):
    sig, act = st.resolve(args[0]), st.resolve(args[1])
    h = '?'
    if isP(act):
        v = st.resolve(m.I.load(st, act, 8, 64)[0][1])
        h = v
        if isinstance(sig, int):
            st.g[KS(m, sig)] = v.a[0] if isinstance(v, V) and v.tag == 'F' else {0: 'DFL', 1: 'IGN'}.get(v, '?') if isinstance(v, int) else '?'
    m.I.mon.pre(st, 'signal', [sig, h])
    m.I.mon.post(st, 'signal', [sig, h], 0, False)
    return m.ret(st, 0)


@libc('sigprocmask', 'pthread_sigmask')
def _mask(m, st, f, args, i):
    how = st.resolve(args[0])
    st.g[KS(m, 'mask')] = 1 if how == 0 or how == 2 and isinstance(how, int) else 0
    return outcomes(m, st, 'sigprocmask', args, [(0, None, None)])


@libc('sigemptyset', 'sigaddset', 'sigfillset', 'sigdelset')
def _sigset(m, st, f, args, i):
    return m.ret(st, 0)


# ---------------------------------------------------------------- descriptors
def newfd(m, st, kind):
    v = mk('fd', kind, m.fresh(st, ('fd', kind)))
    st.g['mayopen'] = st.g.get('mayopen', frozenset()) | {v}
    return v


@libc('socket')
def _socket(m, st, f, args, i):
    return outcomes(m, st, 'socket', args, [(lambda s: newfd(m, s, 'sock'), None, None), (-1, True, None)])


@libc('accept', 'accept4')
def _accept(m, st, f, args, i):
    def ok(s):
        s.g['k_acc'] = 1
    return outcomes(m, st, 'accept', args, [(lambda s: newfd(m, s, 'conn'), None, ok), (-1, True, None)])


def opens(kind):
    def h(m, st, f, args, i):
        return outcomes(m, st, f.meth, args, [(lambda s: newfd(m, s, kind), None, None), (-1, True, None)])
    return h


LIBC['open'] = LIBC['open64'] = opens('file')
LIBC['creat'] = LIBC['openat'] = LIBC['openat64'] = opens('file')
LIBC['dup'] = opens('dup')
LIBC['epoll_create1'] = LIBC['epoll_create'] = LIBC['eventfd'] = LIBC['signalfd'] = LIBC['timerfd_create'] = opens('misc')


@libc('pipe', 'pipe2', 'socketpair')
def _pipe(m, st, f, args, i):
    p = args[-1] if f.meth == 'socketpair' else args[0]

    def ok(s):
        a = mk('fd', 'piper', m.fresh(s, 'piper'))
        b = mk('fd', 'pipew', m.fresh(s, 'pipew'))
        s.g['mayopen'] = s.g.get('mayopen', frozenset()) | {a, b}
        m.I.store(s, p, 4, a)
        m.I.store(s, m.I.padd(s, s.resolve(p), 4), 4, b)
        s.g['lastpipe'] = (a, b)
        s.g['mustpair'] = s.g.get('mustpair', frozenset()) | {(a, b)}
    return outcomes(m, st, 'pipe', args, [(0, None, ok), (-1, True, None)])


@libc('close')
def _close(m, st, f, args, i):
    out = []
    for s2, v in m.split(st, args[0]):
        m.I.mon.pre(s2, 'close', [v])
        s2.g['mayopen'] = s2.g.get('mayopen', frozenset()) - {v}
        if isinstance(v, int) and 0 <= v <= 2:
            s2.g[KF(m, v)] = 'closed'
        m.I.mon.post(s2, 'close', [v], 0, False)
        out.append(('ret', s2, 0))
    return out


@libc('close_range', 'closefrom')
def _closer(m, st, f, args, i):
    st.g['mayopen'] = frozenset()
    return outcomes(m, st, f.meth, args, [(0, None, None)])


@libc('dup2', 'dup3')
def _dup2(m, st, f, args, i):
    out = []
    for s1, a in m.split(st, args[0]):
        for s2, b in m.split(s1, args[1]):
            def ok(s):
                if isinstance(b, int) and 0 <= b <= 2:
                    s.g[KF(m, b)] = a if not (isinstance(a, int) and 0 <= a <= 2) else s.g.get(KF(m, a), a)
            out += outcomes(m, s2, 'dup2', [a, b], [(b, None, ok), (-1, True, None)])
    return out


@libc('fcntl', 'fcntl64', 'ioctl')
def _fcntl(m, st, f, args, i):
    out = []
    for s1, a in m.split(st, args[0]):
        cmd = s1.resolve(args[1])
        arg = s1.resolve(args[2]) if len(args) > 2 else 0
        if f.meth.startswith('fcntl') and isinstance(cmd, int) and cmd in (0, 1030):
            out += outcomes(m, s1, 'fcntl', [a, cmd, arg], [(lambda s: newfd(m, s, 'dup'), None, None), (-1, True, None)])
        elif isinstance(cmd, int) and cmd in (1, 3):
            out += outcomes(m, s1, 'fcntl', [a, cmd, arg], [(lambda s: m.fresh(s, 'flags', R_iv(0, INT_MAX)), None, None), (-1, True, None)])
        else:
            out += outcomes(m, s1, f.meth.replace('64', ''), [a, cmd, arg], [(0, None, None), (-1, True, None)])
    return out


def split0(name):
    """0 / -1 call whose first argument is a descriptor"""
    def h(m, st, f, args, i):
        out = []
        for s1, a in m.split(st, args[0]):
            out += outcomes(m, s1, name, [a] + list(args[1:]), [(0, None, None), (-1, True, None)])
        return out
    return h


for _n in ('bind', 'listen', 'connect', 'setsockopt', 'getsockname', 'shutdown', 'getpeername', 'fsync', 'ftruncate', 'fchmod', 'fchdir'):
    LIBC[_n] = split0(_n)


def _listen(m, st, f, args, i):
    out = []

    def ok(s):
        if s.g.get('k_role', 'main') == 'main':
            s.g['k_role'] = 'server'
    for s1, a in m.split(st, args[0]):
        out += outcomes(m, s1, 'listen', [a] + list(args[1:]), [(0, None, ok), (-1, True, None)])
    return out


LIBC['listen'] = _listen


def _getsockname(m, st, f, args, i):
    def ok(s):
        p = s.resolve(args[1])
        if isP(p):
            m.put_region(s, p, 16, {}, {0: (16, m.fresh(s, 'addr'))})
    return outcomes(m, st, f.meth, args, [(0, None, ok), (-1, True, None)])


LIBC['getsockname'] = LIBC['getpeername'] = _getsockname


@libc('poll', 'ppoll')
def _poll(m, st, f, args, i):
    p, n = st.resolve(args[0]), st.resolve(args[1])
    if m.I.mon.pollsplit and isP(p) and isinstance(p.a[1], int) and isinstance(n, int) and n <= 8:
        sts = [st]
        for x in range(n):
            nxt = []
            for s in sts:
                fd = m.I.load(s, P(p.a[0], p.a[1] + 8 * x), 4, 32)[0][1]
                nxt += [s2 for s2, v in m.split(s, fd)]
            sts = nxt
        return [r for s in sts for r in _poll1(m, s, f, args, i)]
    return _poll1(m, st, f, args, i)


def _poll1(m, st, f, args, i):
    p, n = st.resolve(args[0]), st.resolve(args[1])
    m.I.mon.pre(st, 'poll', [p, n] + list(args[2:]))
    out = []
    e = st.copy()
    kp = 'poll' in m.I.mon.keyed
    if kp:
        e.g['k_poll'] = 'err'
    m.errno(e)
    m.I.mon.post(e, 'poll', [p, n] + list(args[2:]), -1, True)
    out.append(('ret', e, -1))
    if isP(p) and isinstance(p.a[1], int) and isinstance(n, (int, V)):
        cnt = n if isinstance(n, int) else None
        if cnt is None:
            lo, hi = r_bounds(st.range(n))
            cnt = hi if hi is not None and hi <= 16 else 8
        z = st.copy()
        for s, any_ in ((z, False), (st, True)):
            k = m.fresh(s, 'poll') if any_ else None
            if kp:
                s.g['k_poll'] = 'some' if any_ else 'zero'
            o = s.m.get(p.a[0])
            for x in range(cnt):
                off = p.a[1] + 8 * x
                if o is not None and not any(isinstance(q, int) and off <= q < off + 8 for q in o.c) and not (o.b and any(q <= off < q + b[0] for q, b in o.b.items())):
                    break
                if any_:
                    fd = s.resolve(m.I.load(s, P(p.a[0], off), 4, 32)[0][1])
                    rv = 0 if isinstance(fd, int) and fd < 0 else mk('op', 'rev', fd, x, k, 16)
                else:
                    rv = 0
                s.put(p.a[0], off + 6, 2, rv)
        m.I.mon.post(z, 'poll', [p, n] + list(args[2:]), 0, False)
        out.append(('ret', z, 0))
        r = m.fresh(st, 'nready', R_iv(1, cnt))
        m.I.mon.post(st, 'poll', [p, n] + list(args[2:]), r, False)
        out.append(('ret', st, r))
    else:
        r = m.fresh(st, 'nready', R_iv(0, INT_MAX))
        out.append(('ret', st, r))
    return out


def rd(name, fdi=0, bi=1, ni=2):
    def h(m, st, f, args, i):
        out = []
        for s1, a in m.split(st, args[fdi]):
            av = list(args)
            av[fdi] = a
            n = s1.resolve(av[ni])
            buf = s1.resolve(av[bi])
            av[bi], av[ni] = buf, n
            m.I.mon.span(s1, 'in', buf, n)
            if isinstance(a, int) and (a < 0 or a >= 1 << 31):
                out += outcomes(m, s1, name, av, [(-1, R_set(9), None)])
                continue

            def some(s):
                k = m.fresh(s, 'got', ('iv', 1, (1 << 62), frozenset()))
                if assume_cmp(s, 'sle', k, n, 64) is False:
                    return None
                fill(m, s, buf, k, a)
                return k
            outs = [(0, None, None), (-1, True, None)]
            if not (isinstance(n, int) and n == 0):
                s3 = s1.copy()
                m.I.mon.pre(s1, name, av)
                k = some(s3)
                if k is not None:
                    m.I.mon.post(s3, name, av, k, False)
                    out.append(('ret', s3, k))
                out += outcomes(m, s1, name, av, outs, pre=False)
            else:
                out += outcomes(m, s1, name, av, outs)
        return out
    return h


def fill(m, st, buf, k, src):
    """Unknown bytes are written to a buffer."""
    if isP(buf):
        o = buf.a[0]
        if o.tag == 'sd':
            s = m.sdv(st, o)
            r = m.fresh(st, 'filled')
            m.sdp(st, o, mk('S', r, s.a[1], frozenset((('in',),)) if M.S.SHAPES else s.a[2] | {'in'}))
        elif o.tag in ('a', 'h', 'g'):
            ob = st.m.get(o)
            if ob is not None and isinstance(buf.a[1], int):
                c = {q: x for q, x in ob.c.items() if isinstance(q, int) and q < buf.a[1]}
                st.m[o] = Obj(c, None)


LIBC['read'] = rd('read')
LIBC['recv'] = rd('recv')
LIBC['recvfrom'] = rd('recv')
LIBC['pread'] = LIBC['pread64'] = rd('read')


def wr(name):
    def h(m, st, f, args, i):
        out = []
        for s1, a in m.split(st, args[0]):
            n = s1.resolve(args[2])
            av = [a, s1.resolve(args[1]), n] + list(args[3:])
            m.I.mon.span(s1, 'out', av[1], n)
            m.I.mon.pre(s1, name, av)
            e = s1.copy()
            bad = isinstance(a, int) and (a < 0 or a >= 1 << 31)
            m.errno(e, R_set(9) if bad else None)
            m.I.mon.post(e, name, av, -1, True)
            out.append(('ret', e, -1))
            if bad:
                continue
            z = s1.copy()
            if assume_cmp(z, 'eq', n, 0, 64):
                m.I.mon.post(z, name, av, 0, False)
                out.append(('ret', z, 0))
            if not (isinstance(n, int) and n == 0):
                k = m.fresh(s1, 'put', ('iv', 1, (1 << 62), frozenset()))
                if assume_cmp(s1, 'sle', k, n, 64):
                    m.I.mon.post(s1, name, av, k, False)
                    out.append(('ret', s1, k))
        return out
    return h


LIBC['write'] = wr('write')
LIBC['send'] = wr('send')
LIBC['sendto'] = wr('send')
LIBC['pwrite'] = LIBC['pwrite64'] = wr('write')
for _n in ('readv', 'writev', 'sendmsg', 'recvmsg', 'sendfile', 'splice', 'copy_file_range', 'select', 'pselect', 'epoll_wait', 'epoll_ctl'):
    def _vec(m, st, f, args, i):
        return outcomes(m, st, f.meth, args, [(lambda s: m.fresh(s, 'n', R_iv(0, INT_MAX)), None, None), (-1, True, None)])
    LIBC[_n] = _vec


# ---------------------------------------------------------------- files
for _n in ('chdir', 'unlink', 'remove', 'rmdir', 'symlink', 'link', 'rename', 'chmod', 'mkdir', 'access', 'stat', 'lstat', 'truncate', 'mkfifo', 'linkat', 'symlinkat',
           'unlinkat', 'renameat', 'fstat', 'setenv', 'unsetenv', 'putenv', 'clearenv', 'sigsuspend', 'setrlimit', 'setuid', 'setgid', 'chroot', 'prctl', 'nanosleep',
           'clock_nanosleep', 'usleep', 'pause', 'atexit', 'on_exit', 'at_quick_exit', 'daemon', 'setpgid', 'sigwait', 'setlinebuf'):
    def _file(m, st, f, args, i):
        return outcomes(m, st, f.meth, args, [(0, None, None), (-1, True, None)])
    LIBC[_n] = _file


@libc('umask', 'sleep', 'alarm', 'srand', 'rand', 'time', 'sched_yield', 'setvbuf', 'setbuf')
def _misc(m, st, f, args, i):
    return outcomes(m, st, f.meth, args, [(lambda s: m.fresh(s, 'r', R_iv(0, INT_MAX)), None, None)])


@libc('fopen', 'fopen64', 'fdopen', 'freopen', 'tmpfile')
def _fopen(m, st, f, args, i):
    return outcomes(m, st, f.meth, args, [(lambda s: P(mk('sp', ('FILE', m.fresh(s, 'FILE'))), 0), None, None), (0, True, None)])


@libc('fclose', 'pclose')
def _fclose(m, st, f, args, i):
    return outcomes(m, st, 'fclose', [st.resolve(args[0])], [(0, None, None), (-1, True, None)])


@libc('fflush')
def _fflush(m, st, f, args, i):
    return outcomes(m, st, 'fflush', [st.resolve(args[0])], [(0, None, None), (-1, True, None)])


@libc('fread', 'fwrite')
def _frw(m, st, f, args, i):
    av = [st.resolve(a) for a in args]
    n = av[2]
    nm = f.meth
    size = av[1] if isinstance(av[2], int) and av[2] == 1 else av[2]
    m.I.mon.span(st, 'out' if nm == 'fwrite' else 'in', av[0], av[1] if n == 1 and isinstance(n, int) else n if av[1] == 1 and isinstance(av[1], int) else None)
    if nm == 'fread':
        fill(m, st, av[0], 0, av[3])
    m.I.mon.pre(st, nm, av)
    z = st.copy()
    m.errno(z)
    if isinstance(n, int) and n == 1:
        m.I.mon.post(z, nm, av, 0, True)
        m.I.mon.post(st, nm, av, 1, False)
        return [('ret', z, 0), ('ret', st, 1)]
    s3 = st.copy()
    m.errno(s3)
    k = m.fresh(z, 'short', NAT)
    out = []
    if assume_cmp(z, 'slt', k, n, 64):
        m.I.mon.post(z, nm, av, k, True)
        out.append(('ret', z, k))
    m.I.mon.post(st, nm, av, n, False)
    out.append(('ret', st, n))
    return out


@libc('fseek', 'fseeko', 'rewind')
def _fseek(m, st, f, args, i):
    return outcomes(m, st, 'fseek', args, [(0, None, None), (-1, True, None)])


@libc('ftell', 'ftello', 'lseek', 'lseek64')
def _ftell(m, st, f, args, i):
    return outcomes(m, st, 'ftell', args, [(lambda s: m.fresh(s, 'pos', NAT), None, None), (-1, True, None)])


@libc('ferror', 'feof', 'fileno')
def _ferror(m, st, f, args, i):
    return m.ret(st, m.fresh(st, f.meth, R_iv(0, INT_MAX)))


@libc('puts', 'putchar', 'printf', 'fprintf', 'fputs', 'fputc', 'putc', 'perror', 'vfprintf', 'dprintf', 'snprintf', 'sprintf')
def _printf(m, st, f, args, i):
    m.I.mon.pre(st, f.meth, args)
    return m.ret(st, m.fresh(st, 'r'))


@libc('getenv', 'secure_getenv')
def _getenv(m, st, f, args, i):
    s = m.cstr(st, args[0])
    z = st.copy()
    m.I.mon.pre(st, 'getenv', [s])
    v = P(mk('cs', mk('env', s.a[0] if s is not None else m.fresh(st, 'nm'))), 0)
    return [('ret', z, 0), ('ret', st, v)]


@libc('realpath', 'getcwd', 'readlink', 'gethostname')
def _path(m, st, f, args, i):
    bi = {'realpath': 1, 'getcwd': 0, 'readlink': 1, 'gethostname': 0}[f.meth]
    b = st.resolve(args[bi])

    def ok(s):
        if isP(b):
            fill(m, s, b, 0, 0)
    good = {'realpath': b, 'getcwd': b, 'gethostname': 0}.get(f.meth)
    if f.meth == 'readlink':
        good = lambda s: m.fresh(s, 'n', R_iv(0, 1 << 20))
    return outcomes(m, st, f.meth, args, [(good, None, ok), (-1 if f.meth in ('readlink', 'gethostname') else 0, True, None)])


# ---------------------------------------------------------------- pure C functions
@libc('htons', 'ntohs')
def _swap16(m, st, f, args, i):
    return m.ret(st, swap16(m, st, st.resolve(args[0])))


def swap16(m, st, x):
    if isinstance(x, int):
        u = x & 0xffff
        return sgn((u & 255) << 8 | u >> 8, 16)
    if x.tag == 'op' and x.a[0] == 'bswap16':
        return x.a[1]
    return mk('op', 'bswap16', x, 16)


def swap(m, st, x, w):
    b = m.I.bits(st, x, w)
    return m.I.frombits([y for k in range(w - 8, -1, -8) for y in b[k:k + 8]], w)


@libc('htonl', 'ntohl')
def _swap32(m, st, f, args, i):
    return m.ret(st, swap(m, st, st.resolve(args[0]), 32))


def dotted(m, st, p):
    """The four bytes of an address given as a constant text, as a number in network order (in memory)."""
    s = m.cstr(st, p)
    if s is None or s.a[0].tag != 'lit':
        return None
    try:
        b = [int(x) for x in s.a[0].a[0].split(b'.')]
    except ValueError:
        return None
    return sgn(sum(x << 8 * k for k, x in enumerate(b)), 32) if len(b) == 4 and all(0 <= x < 256 for x in b) else None


@libc('inet_addr')
def _inet_addr(m, st, f, args, i):
    v = dotted(m, st, args[0])
    return m.ret(st, v if v is not None else m.fresh(st, 'addr', R_iv(-1 << 31, (1 << 31) - 1)))


@libc('inet_pton', 'inet_aton')
def _inet_pton(m, st, f, args, i):
    n = 1 if f.meth == 'inet_pton' else 0
    v = dotted(m, st, args[n])
    p = st.resolve(args[n + 1])
    if v is None or f.meth == 'inet_pton' and st.const(st.resolve(args[0])) != 2:
        if isP(p):
            m.put_region(st, p, 16, {}, {})
        return m.ret(st, m.fresh(st, 'r', R_iv(-1, 1)))
    for s in m.I.store(st, p, 4, v):
        st = s
    return m.ret(st, 1)


@libc('toupper', 'tolower')
def _toupper(m, st, f, args, i):
    return m.ret(st, m.fresh(st, 'c', R_iv(-128, 255)))


@libc('isdigit', 'isxdigit', 'isspace', 'isalpha', 'isalnum')
def _isx(m, st, f, args, i):
    return m.ret(st, m.fresh(st, 'c', R_iv(0, 65535)))


@libc('strlen')
def _strlen(m, st, f, args, i):
    s = m.cstr(st, args[0])
    return m.ret(st, s.a[1] if s is not None else m.fresh(st, 'len', NAT))


@libc('strcmp', 'strncmp', 'memcmp', 'strcasecmp')
def _strcmp(m, st, f, args, i):
    if f.meth == 'strcmp':
        a, b = m.cstr(st, args[0]), m.cstr(st, args[1])
        if a is not None and b is not None:
            m.I.mon.compare(st, a, b)
            e = m.streq(st, a, b)
            return m.ret(st, m.I.neg(e))
    return m.ret(st, m.fresh(st, 'cmp', R_iv(-255, 255)))


@libc('memcpy', 'memmove', 'mempcpy')
def _memcpy(m, st, f, args, i):
    n, src, dst = st.resolve(args[2]), st.resolve(args[1]), st.resolve(args[0])
    m.I.mon.span(st, 'out', src, n)
    m.I.mon.span(st, 'in', dst, n)
    if isP(dst) and dst.a[0].tag == 'sd':
        fill(m, st, dst, n, None)
        return m.ret(st, args[0])
    g = type('F', (), {})()
    g.meth = 'llvm.memcpy'
    return m.do_llvm(st, g, args, i)


@libc('memset')
def _memset(m, st, f, args, i):
    g = type('F', (), {})()
    g.meth = 'llvm.memset'
    m.do_llvm(st, g, args, i)
    return m.ret(st, args[0])


@libc('gmtime_r', 'localtime_r')
def _gmtime(m, st, f, args, i):
    return m.ret(st, args[1])


# ---------------------------------------------------------------- allocation and C++ runtime
@libc('_Znwm', '_Znam', 'malloc', 'calloc')
def _new(m, st, f, args, i):
    o = mk('h', m.fresh(st, 'heap'))
    st.m[o] = Obj({})
    return m.ret(st, P(o, 0))


@libc('_ZdlPv', '_ZdaPv', '_ZdlPvm', 'free')
def _delete(m, st, f, args, i):
    p = st.resolve(args[0])
    if isP(p):
        st.m.pop(p.a[0], None)
    return m.ret(st)


@libc('__cxa_allocate_exception')
def _alloc_exc(m, st, f, args, i):
    o = mk('h', m.fresh(st, 'exc'))
    return m.ret(st, P(o, 0))


@libc('__cxa_free_exception', '__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort', 'tzset', '_ZNSt8ios_base4InitC1Ev')
def _nop(m, st, f, args, i):
    return m.ret(st, 0)


@libc('__cxa_guard_acquire')
def _guard(m, st, f, args, i):
    return m.ret(st, 1)


@libc('__cxa_throw')
def _throw(m, st, f, args, i):
    t = args[1]
    e = t.a[0].a[0] if isP(t) else str(t)
    p = st.resolve(args[0])
    if isP(p):
        st.m.pop(p.a[0], None)
    return m.I.throw(st, e)


@libc('__cxa_begin_catch')
def _begin(m, st, f, args, i):
    x = st.g.get('k_exc2', ())
    e = x[-1] if x else None
    st.g['k_exc2'] = x[:-1]
    st.g['k_cat'] = st.g.get('k_cat', ()) + (e,)
    return m.ret(st, P(mk('sp', 'excobj'), 0))


@libc('__cxa_end_catch')
def _endc(m, st, f, args, i):
    st.g['k_cat'] = st.g.get('k_cat', ())[:-1]
    return m.ret(st)


@libc('__cxa_rethrow')
def _rethrow(m, st, f, args, i):
    c = st.g.get('k_cat', ())
    return m.I.throw(st, c[-1] if c else None)


@libc('_ZNSt9exceptionD1Ev')
def _excd(m, st, f, args, i):
    return m.ret(st)


@libc('sleep_until', 'sleep_for')
def _sleepu(m, st, f, args, i):
    m.I.mon.pre(st, 'sleep', args)
    return m.ret(st)


for _n in ('_ZSt20__throw_length_errorPKc', '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc'):
    def _thr(m, st, f, args, i):
        return m.I.throw(st, M.RANGE)
    LIBC[_n] = _thr
