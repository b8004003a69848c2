"""Property monitors (fifth part): the messages that the two ends exchange."""
from pbase import *
from props3 import Window, EXITS
import libc as LC

GH = mk('sp', 'ghost')


def chbyte(bits):
    """The character of a string that eight bits are, as (string, index), or None."""
    b = bits[0]
    if not (isinstance(b, V) and isinstance(b.a[0], V) and b.a[0].tag == 'op' and b.a[0].a[0] == 'ch'):
        return None
    x = b.a[0]
    if all(isinstance(q, V) and q.a[0] is x and q.a[1] == n for n, q in enumerate(bits)):
        return x.a[1], x.a[2]
    return None


def succ(a, b, d):
    """Whether index b is a + d"""
    return a[0] is b[0] and lin_add(a[1], d) == b[1]


class Wire(Window):
    """Knows the numbers that are taken out of receive buffers and the message headers that are put together.

    ghost cells: 0 the kind of the last message received, 8 its number, 16 the low byte of that number, 24 the status word of the command, 32 the number encoded last
    ghosts: k_dec: 1 when a kind and its number were decoded together, 0 while incomplete; k_hdr: the kind of the last header built
    """
    keyed = ('poll', 'wait')

    def start(self, st):
        st.m[GH] = Obj({})
        st.g['k_dec'] = None
        st.g['k_hdr'] = None

    def active(self, st):
        r = self.role(st)
        return r == 'handler' or r == 'main' and st.g.get('k_con')

    def gh(self, st, off):
        e = st.get(GH, off)
        return st.resolve(e[1]) if e else None

    def recvstr(self, st, s):
        return any((o is not None) and any(n == 24 and isinstance(v, V) and v.tag == 'S' and v.a[0] is s for n, v in o.c.values()) for o in [st.m.get(l.a[0]) for l in self.recvbufs])

    def store(self, st, p, size, v):
        if not self.active(st) or not isP(p):
            return
        v = st.resolve(v)
        if p.a[0].tag != 'sd' and isinstance(v, V) and v.tag == 'op' and size <= 8:
            self.decode(st, size, v)
        if size == 1:
            self.encode(st, p, v)

    # ---- numbers taken out of a receive buffer
    def decode(self, st, size, v):
        chs = [x for x in chars(v) if self.recvstr(st, x.a[1])]
        if not chs:
            return
        bits = self.I.bits(st, v, size * 8)
        lanes = [chbyte(bits[q:q + 8]) for q in range(0, size * 8, 8)]
        n = next((q for q in range(size) if lanes[q] is None), size)
        ok = n > 0 and all(isinstance(b, int) and b == 0 for b in bits[8 * n:]) and all(succ(lanes[0], lanes[q], q) for q in range(1, n))
        if not ok or n > 4:
            self.misread(st, v)
            return
        if n == 1 or n < 4:
            last = st.g.get('w_t')
            if n == 1 and st.g.get('k_dec') != 0:
                self.newkind(st)
                st.g['w_t'] = lanes[0]
                st.put(GH, 0, size, v)
                st.g['k_dec'] = 0
            elif n == 1 and last is not None and last[0] is lanes[0][0]:
                pass
        if n == 4:
            t = st.g.get('w_t')
            if st.g.get('k_dec') == 1 and st.g.get('w_v') == lanes[0]:
                return
            self.ob('numbers decoded')
            if st.g.get('k_dec') != 0 or t is None or not succ(t, lanes[0], 1):
                self.misplaced(st, v)
            st.put(GH, 8, 4, self.I.cast(st, 'trunc', v, 8 * size, 32) if size > 4 else v)
            st.put(GH, 16, 4, self.I.binop(st, 'and', st.resolve(v), 255, 32, False) if size == 4 else 0)
            st.g['k_dec'] = 1
            st.g['w_v'] = lanes[0]
            self.decoded(st)

    def misread(self, st, v): pass
    def misplaced(self, st, v): pass
    def newkind(self, st): pass
    def decoded(self, st): pass

    # ---- headers
    def encode(self, st, p, v):
        q = st.g.get('w_seq')
        at = (p.a[0], p.a[1])
        if q is not None and q[0][0][0] is at[0] and len(q) < 5:
            d = lin_add(at[1], q[0][0][1], -1)
            offs = [lin_add(x[0][1], q[0][0][1], -1) for x in q]
            if isinstance(d, int) and -5 < d < 5 and d not in offs and max(offs + [d]) - min(offs + [d]) < 5:
                q = q + ((at, v),)
                if len(q) == 5:
                    st.g['w_seq'] = None
                    st.g['k_n'] = 0
                    lo = min(offs + [d])
                    by = dict(zip(offs + [d], [x[1] for x in q]))
                    self.header(st, at[0], [by[lo + n] for n in range(5)])
                    return
                st.g['w_seq'] = q
                st.g['k_n'] = len(q)
                return
        st.g['w_seq'] = ((at, v),)
        st.g['k_n'] = 0

    def number(self, st, lanes):
        """The number that four bytes encode (its lowest byte first), or None"""
        if all(isinstance(x, int) for x in lanes):
            return sum(uns(x, 8) << 8 * n for n, x in enumerate(lanes))
        bs = [self.I.bits(st, x, 8) for x in lanes]
        src = None
        for n, b in enumerate(bs):
            for k, x in enumerate(b):
                if isinstance(x, V):
                    d = x.a[1] - (8 * n + k)
                    if src is None:
                        src = (x.a[0], d)
                    elif src != (x.a[0], d):
                        return None
        if src is None or src[1] < 0:
            return None
        x, d = src
        hi = r_bounds(st.range(x))
        for n, b in enumerate(bs):
            for k, y in enumerate(b):
                if isinstance(y, int) and (y or not (hi[0] is not None and hi[1] is not None and hi[0] >= 0 and hi[1] < 1 << (8 * n + k + d))):
                    return None
        return x, d

    def header(self, st, obj, by):
        k = st.const(st.resolve(by[0])) if isinstance(by[0], V) else by[0]
        st.g['k_hdr'] = k if isinstance(k, int) else '?'
        self.built(st, obj, k if isinstance(k, int) else None, [st.resolve(x) for x in by[1:]])

    def built(self, st, obj, k, lanes): pass

    # ---- the command
    def post(self, st, name, args, ret, err):
        if name == 'connect':
            st.g['k_con'] = 0 if err else 1
        if name == 'recv' and not err:
            self.received(st, args)
        if self.role(st) == 'handler':
            if name == 'fork' and isinstance(ret, V):
                st.g['cmdpid'] = ret
                st.g['k_rep'] = 'run'
            elif name == 'waitpid' and not err and not (isinstance(ret, int) and ret == 0) and st.g.get('k_ws') in ('exit', 'sig'):
                if args[0] is st.g.get('cmdpid') or isinstance(args[0], int):
                    st.g['k_rep'] = st.g['k_ws']
                    if isP(args[1]):
                        st.put(GH, 24, 4, self.I.load(st, args[1], 4, 32)[0][1])

    def pre(self, st, name, args):
        if self.role(st) == 'handler' and st.g.get('k_ws') != 'stop' and name != 'waitpid':
            st.g['k_ws'] = None


def chars(v, seen=None):
    """The characters of strings that a value is made of."""
    out, todo, seen = [], [v], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, V) and x not in seen:
            seen.add(x)
            if x.tag == 'op' and x.a[0] == 'ch':
                out.append(x)
            elif x.tag in ('op', 'b', 'lin'):
                todo.extend(x.a)
    return out


class C07(Wire):
    id = 'C07'
    rule = ('after connecting, the client exits only with the number of a received message whose kind was found to be EXIT_CODE (8), and reaches no wait after such a message; the server puts together a message of '
            'that kind only after waitpid reported that the command exited, with the four bytes of the exit status of that report, and ends normally after such a report only with the message sent, after a terminate '
            'request or after the connection was lost')
    need = {'client exits': 1, 'exit codes sent': 1, 'numbers decoded': 1, 'handler ends': 1}
    levels = ({},)

    def key(self, st):
        if self.role(st) == 'handler' and st.g.get('k_rep') == 'exit':
            return (st.const(self.gh(st, 0)) == 7 if self.gh(st, 0) is not None else False,)
        return ()

    def built(self, st, obj, k, lanes):
        if self.role(st) != 'handler' or k not in (8, None):
            return
        self.ob('exit codes sent')
        if st.g.get('k_rep') != 'exit':
            self.bad(st, 'report', 'an exit status can be reported for a command that %s' % ('was killed by a signal' if st.g.get('k_rep') == 'sig' else 'has not been collected'))
            return
        w = self.gh(st, 24)
        if w is None:
            return
        I = self.I
        want = I.binop(st, 'lshr', I.binop(st, 'and', w, 0xff00, 32, False), 8, 32, False)
        wb = I.bits(st, want, 32)
        hb = [b for x in lanes for b in I.bits(st, x, 8)]
        if not same_bits(wb, hb):
            self.bad(st, 'status', 'the exit status that is reported is not the exit status of the command')

    def post(self, st, name, args, ret, err):
        Wire.post(self, st, name, args, ret, err)
        if self.role(st) == 'handler':
            if name == 'recv':
                st.g['k_gone'] = 1 if err or isinstance(ret, int) and ret == 0 else 0
            elif name == 'send' and not err and st.g.get('k_hdr') == 8:
                st.g['k_sent'] = 1

    def pre(self, st, name, args):
        Wire.pre(self, st, name, args)
        if self.role(st) == 'main' and st.g.get('k_con') and name in ('poll', 'recv') and st.g.get('k_dec') == 1:
            t = self.gh(st, 0)
            if t is not None and st.const(t) == 8:
                self.bad(st, 'ignored', 'the client can go on after it received the exit status')

    def event(self, st, ev, **k):
        if ev == 'throw':
            st.g['k_thr'] = 1

    def end(self, st, how, status):
        if self.role(st) == 'main' and st.g.get('k_con') and how in EXITS:
            self.ob('client exits')
            t, v, lo = self.gh(st, 0), self.gh(st, 8), self.gh(st, 16)
            s = st.resolve(status)
            if st.g.get('k_dec') != 1 or t is None or st.const(t) != 8:
                self.bad(st, 'invented', 'the client can end with a status although no exit status was received')
            elif not (s is v or s is lo or s == v or s == lo):
                self.bad(st, 'other', 'the client can end with a status other than the one received')
        elif self.role(st) == 'handler' and how in EXITS:
            self.handled(st)

    def split_end(self, st, kind):
        if kind == 'ret':
            self.handled(st)

    def handled(self, st):
        self.ob('handler ends')
        if st.g.get('k_rep') == 'exit' and not st.g.get('k_sent') and not st.g.get('k_gone') and not st.g.get('k_thr'):
            t = self.gh(st, 0)
            if not (t is not None and st.const(t) == 7):
                self.bad(st, 'kept', 'the process handling a connection can end without having reported the exit status of the command')


def same_bits(a, b):
    return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))


KINDS = {'request': {0, 1, 2, 3}, 'relay': {4, 7}, 'client': {4, 5, 6, 8}}
PHASES = {'request': 'while the server receives the request', 'relay': 'by the server while the command runs', 'client': 'by the client'}


class C06(Wire):
    id = 'C06'
    rule = ('every number taken out of a receive buffer is put together from the four bytes after the byte of the kind, lowest first, and every header put into a send buffer consists of a kind and the four bytes of one '
            'number, lowest first; for the request, the relay and the client, the kinds of messages after which the receiver goes on or ends in an orderly way are within the kinds defined for that phase and contain '
            'all kinds the other end builds headers for; output is written to stdout only for kind STDOUT_DATA and to stderr only for STDERR_DATA')
    need = {'numbers decoded': 1, 'headers built': 1, 'kinds sent (request)': 1, 'kinds sent (relay)': 1, 'kinds sent (client)': 1, 'kinds accepted (request)': 1, 'kinds accepted (client)': 1, 'output written': 1}

    def __init__(self):
        Wire.__init__(self)
        self.acc = {p: set() for p in KINDS}
        self.sent = {p: {} for p in KINDS}
        self.sendbufs, self.pending = set(), []

    def phase(self, st):
        return 'client' if self.role(st) == 'main' else 'relay' if st.g.get('k_rep') else 'request'

    def misread(self, st, v):
        self.bad(st, 'decode', 'a number is not put together from four consecutive bytes of a message, lowest first', show(v, -2)[:200])

    def misplaced(self, st, v):
        self.bad(st, 'decode', 'the bytes of a number do not follow the byte that tells the kind of the message')

    def newkind(self, st):
        self.judge(st)
        st.g['k_ph'] = self.phase(st)

    def judge(self, st):
        """The receiver goes on after a message: its kind was accepted."""
        p = st.g.get('k_ph')
        t = self.gh(st, 0)
        if not p or t is None:
            return
        r = st.range(t)
        st.g['k_ph'] = None
        bad = not (r[0] == 'set' and all(isinstance(x, int) for x in r[1]))
        if not bad:
            for k in r[1]:
                self.acc[p].add(k)
                self.site('kinds accepted (%s)' % p, k)
            bad = not r[1] <= KINDS[p]
        if bad:
            self.bad(st, 'accepted', 'a message of a kind that is not defined there can be accepted %s' % PHASES[p], show(r[1] if r[0] == 'set' else 'any'))

    def built(self, st, obj, k, lanes):
        p = 'client' if self.role(st) == 'handler' else 'relay' if st.g.get('k_started') else 'request'
        n = self.number(st, lanes)
        if k == 3 and p == 'request':
            st.g['k_started'] = 1
        self.pending.append((st.copy(), obj, (list(self.I.stack), self.I.curins), k, n, p))

    def store(self, st, p, size, v):
        if self.pending and len(self.pending) > 4000:
            raise AnalysisError('too many headers')
        Wire.store(self, st, p, size, v)

    def pre(self, st, name, args):
        Wire.pre(self, st, name, args)
        if not self.active(st):
            return
        if name == 'poll' or name == 'fork':
            if name == 'poll' and st.g.get('k_dec') == 0:
                self.bad(st, 'length', 'the process can go on after having taken the kind of a message without its number')
            self.judge(st)
        if name in ('fwrite', 'fputs', 'fputc') and self.role(st) == 'main':
            n = stdno(args[-1])
            if n in (1, 2):
                self.ob('output written')
                t = self.gh(st, 0)
                if t is None or st.const(t) != n + 4:
                    self.bad(st, 'stream', 'output can be written to %s for a message that is not of that kind' % ('stdout' if n == 1 else 'stderr'))

    def post(self, st, name, args, ret, err):
        Wire.post(self, st, name, args, ret, err)
        if name == 'send' and isP(args[1]) and args[1].a[0].tag == 'sd':
            self.sendbufs.add(args[1].a[0])

    def end(self, st, how, status):
        if self.active(st) and how in EXITS:
            self.judge(st)

    def split_end(self, st, kind):
        if kind == 'ret':
            self.judge(st)

    def finish(self):
        for st, obj, stack, k, n, p in self.pending:
            if obj.tag == 'sd' and obj not in self.sendbufs:
                continue
            self.I.stack, self.I.curins = stack
            self.site('headers built', self.I.where())
            if n is None:
                self.bad(st, 'encode', 'the four bytes after the kind of a message are not those of a number, lowest first')
            if k is not None:
                self.sent[p].setdefault(k, (st, stack))
                self.site('kinds sent (%s)' % p, k)
        for p, ks in self.sent.items():
            for k, (st, stack) in ks.items():
                if k not in self.acc[p]:
                    self.I.stack, self.I.curins = stack
                    self.bad(st, 'refused', 'messages of kind %d are sent but not accepted %s' % (k, PHASES[p]))


def stdno(p):
    t = show(p)
    for n, s in enumerate(('stdin', 'stdout', 'stderr')):
        if s in t:
            return n
    return None
