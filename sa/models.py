"""Models of the C and C++ library and of the system calls."""
import re
from val import *
from state import *
import state as S
from interp import AnalysisError, exc_matches

RUNTIME = '_ZTISt13runtime_error'
INVALID = '_ZTISt16invalid_argument'
RANGE = '_ZTISt12out_of_range'
NPOS = -1
ERRNO = P(mk('sp', 'errno'), 0)

ABSTRACT = ('string', 'vector<', 'unordered_map<', 'map<', 'shared_ptr<', '__shared_ptr', '__detail::_Node_', 'basic_ostream', 'ostream',
            'basic_ios', 'basic_ostringstream', '__new_allocator', 'allocator', 'ios_base', 'basic_istream', 'locale', 'thread', 'Logger', 'basic_string',
            'basic_stringstream', 'basic_streambuf')

# functions of the program whose results are treated as arbitrary values determined by their arguments
PURE = {'Utilities::getAbsolutePath': 's', 'Utilities::getBasename': 's', 'Utilities::getExecutableBasename': 's', 'Utilities::getExecutablePath': 's',
        'Utilities::getHostname': 's', 'Utilities::getParentDirectory': 's', 'Utilities::getWorkingDirectory': 's', 'Utilities::normalizePath': 's',
        'Utilities::relativizePath': 's', 'Utilities::substituteEnvironmentVariables': 's', 'Utilities::readFile': 'o', 'Utilities::isAbsolutePath': 'b',
        'Logger::shouldLogDebug': 'b', 'Configuration::load': 'B'}
PURE_LABEL = {'Utilities::readFile': 'file', 'Utilities::getExecutablePath': 'exe', 'Utilities::getHostname': 'host', 'Utilities::getWorkingDirectory': 'cwd'}

NOOPS = {'__cxa_free_exception', 'shutdown', 'setsockopt', 'getsockname', 'umask', 'fseek', '__cxa_atexit', 'tzset', '__cxa_guard_release', '__cxa_guard_abort'}


def lit(b):
    if isinstance(b, str):
        b = b.encode()
    return mk('S', mk('lit', b), len(b), frozenset())


def ln(i):
    if i.tag == 'lit':
        return len(i.a[0])
    if i.tag == 'cat':
        n = 0
        for x in i.a[0]:
            t = lin_add(n, ln(x))
            if t is None:
                return mk('s', LN, i)
            n = t
        return n
    return mk('s', LN, i)


def mkS(i, labels=frozenset(), n=None):
    return mk('S', i, ln(i) if n is None else n, labels)


def root(o):
    while isinstance(o, V) and o.tag in ('f', 'e'):
        o = o.a[0]
    return o


def origin_labels(o):
    r = root(o)
    if S.SHAPES:
        return frozenset(((opath(o),),))
    return frozenset((r.a[0],)) if isinstance(r, V) and r.tag == 'o' else frozenset()


def opath(o):
    if isinstance(o, V) and o.tag == 'f':
        return '%s.%s' % (opath(o.a[0]), o.a[1])
    if isinstance(o, V) and o.tag == 'e':
        return opath(o.a[0]) + '[]'
    return str(o.a[0]) if isinstance(o, V) and o.tag == 'o' else '?'


def cat_ids(a, b):
    xs = (a.a[0] if a.tag == 'cat' else (a,)) + (b.a[0] if b.tag == 'cat' else (b,))
    out = []
    for x in xs:
        if x.tag == 'lit':
            if not x.a[0]:
                continue
            if out and out[-1].tag == 'lit':
                out[-1] = mk('lit', out[-1].a[0] + x.a[0])
                continue
        out.append(x)
    if not out:
        return mk('lit', b'')
    if len(out) == 1:
        return out[0]
    if len(out) > 12:
        return None
    return mk('cat', tuple(out))


def esize(t):
    t = t.strip()
    if t.endswith(' const'):
        t = t[:-6]
    if t.startswith('const '):
        t = t[6:]
    if t.endswith('*') or t in ('size_t', 'long', 'long long', 'unsigned long long', 'unsigned long', 'double'):
        return 8
    if t in ('char', 'unsigned char', 'signed char', 'bool'):
        return 1
    if t in ('int', 'unsigned int', 'float'):
        return 4
    if t in ('short', 'unsigned short'):
        return 2
    if t == 'string':
        return 32
    if t == 'OptionalString':
        return 40
    if t == 'pollfd':
        return 8
    if t == 'Pipe':
        return 8
    if t.startswith('pair<'):
        a, b = tmpl_args(t)[:2]
        x, y = esize(a), esize(b)
        return None if x is None or y is None else x + y
    if t.startswith('vector<'):
        return 24
    if t.startswith('unordered_map<'):
        return 56
    return None


def tmpl_args(t):
    i = t.find('<')
    d = 0
    out = []
    cur = ''
    for c in t[i + 1:]:
        if c == '<':
            d += 1
        elif c == '>':
            if d == 0:
                break
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


def layout(t, base=0):
    """Fields of a library type: [(offset, size)]"""
    t = t.strip()
    for q in (' const', ):
        if t.endswith(q):
            t = t[:-len(q)]
    if t.startswith('pair<'):
        a, b = tmpl_args(t)[:2]
        return layout(a, base) + layout(b, base + (esize(a) or 0))
    if t == 'OptionalString':
        return [(base, 32), (base + 32, 1)]
    if t == 'Pipe':
        return [(base, 4), (base + 4, 4)]
    if t == 'Configuration::Command':
        return [(base, 8), (base + 16, 32), (base + 48, 24), (base + 72, 24)]
    if t == 'Configuration::Host':
        return [(base, 32), (base + 32, 2), (base + 40, 24)]
    n = esize(t)
    return [(base, n)] if n else []


class Models:
    def __init__(self, I):
        self.I = I
        self.pure = dict(PURE)
        self.canthrow = None
        self.unknown = {}

    # ------------------------------------------------------------ lazily named contents
    def lazy(self, org, off, n):
        if not isinstance(org, V):
            return 0 if org == 0 else None
        if org.tag == 's':
            return mk('s', ('lz',), org, off, n)
        o = mk('f', org, off)
        lb = origin_labels(o)
        if n == 32:
            return mkS(o, lb)
        if n == 24:
            k = mk('s', LN, o)
            return mk('vec', 0, (mk('sl', o, 0, k),), k)
        if n == 56:
            return mk('map', o, (), lb, mk('s', LN, o))
        if n == 1:
            return mk('s', BL, o)
        return mk('s', ('lz',), org, off, n)

    def isstr(self, st, v):
        return isinstance(v, V) and v.tag == 'S'

    def loc(self, ptr):
        return mk('lo', ptr.a[0], ptr.a[1])

    def unloc(self, l):
        return P(l.a[0], l.a[1])

    def ptrs(self, st, p):
        """[(state, P)]"""
        p = st.resolve(p)
        if isP(p):
            return [(st, p)]
        t = self.I.targets(st, p)
        if t:
            return t
        return [(st, None)]

    # cells of library objects (string 32, vector 24, map 56)
    def getobj(self, st, p, n, tag, make):
        p = st.resolve(p)
        if not isP(p):
            t = self.I.targets(st, p)
            if t and len(t) == 1:
                p = t[0][1]
            else:
                if t:
                    vs = [self.getobj(s2, q, n, tag, make) for s2, q in t]
                    if all(v is vs[0] for v in vs):
                        return vs[0]
                    if tag == 'S':
                        return mk('S', self.fresh(st, 'u'), self.fresh(st, 'un', NAT), frozenset().union(*[v.a[2] for v in vs]))
                return make()
        obj, off = p.a
        if obj.tag in ('el',):
            v = self.load_special(st, obj, off, n, 64)
        else:
            o = st.m.get(obj)
            c = o.c.get(off) if o is not None else None
            if c is not None and c[0] == n:
                v = c[1]
            elif o is not None and o.b and blobval(o, off, n) is not None:
                v = blobval(o, off, n)
            elif obj.tag == 'bo' and isinstance(off, int):
                v = self.lazy(obj.a[0], off, n)
            else:
                v = None
        if isinstance(v, V) and v.tag == tag:
            return v
        if isinstance(v, V) and v.tag == 's' and n == 32 and obj.tag not in ('el',):
            pass
        v = make()
        if obj.tag not in ('el', 'bo'):
            st.put(obj, off, n, v)
        return v

    def sdv(self, st, o):
        """The string or byte vector whose data an object designates"""
        n = o.a[2] if len(o.a) > 2 else 32
        return self.getobj(st, P(o.a[0], o.a[1]), n, 'S', lambda: mkS(self.fresh(st, 'str'), frozenset(('?',))))

    def sdp(self, st, o, s):
        r = self.I.store(st, P(o.a[0], o.a[1]), o.a[2] if len(o.a) > 2 else 32, s)
        return r[0] if r else st

    def gs(self, st, p):
        return self.getobj(st, p, 32, 'S', lambda: mkS(self.fresh(st, 'str'), frozenset(('?',))))

    def ps(self, st, p, s):
        r = self.I.store(st, p, 32, s)
        return r[0] if r else st

    def gv(self, st, p):
        def make():
            o = self.fresh(st, 'vec')
            k = mk('s', LN, o)
            return mk('vec', 0, (mk('any', None, frozenset()),), k)
        return self.getobj(st, p, 24, 'vec', make)

    def gm(self, st, p):
        def make():
            o = self.fresh(st, 'map')
            return mk('map', 0, (), frozenset(('?',)), mk('s', LN, o))
        return self.getobj(st, p, 56, 'map', make)

    def fresh(self, st, name, rng=None):
        fn, c, _ = self.I.stack[-1]
        return st.fresh(('m', c, self.I.curidx, name), 'v', rng=rng)

    # ------------------------------------------------------------ element and character access
    def elem_add(self, st, b, off):
        obj, o = b.a
        es = obj.a[2] if len(obj.a) > 2 and obj.a[2] != 'm' else None
        t = lin_add(o, off)
        if t is None or es is None:
            return P(obj, t if t is not None else mk('op', 'padd', o, off, 64))
        if isinstance(t, int):
            q, r = divmod(t, es)
            if q == 0:
                return P(obj, t)
            pos = lin_add(obj.a[1], q) if not kpos2(obj.a[1]) else None
            return P(mk('el', obj.a[0], pos, es), r) if pos is not None else P(obj, t)
        if t.tag == 's' and es != 1:
            return P(obj, t)
        terms, c = lin_parts(t)
        if all(k % es == 0 for _, k in terms):
            q, r = divmod(c, es)
            d = lin_make([(s, k // es) for s, k in terms], q)
            pos = lin_add(obj.a[1], d) if not kpos2(obj.a[1]) else None
            if pos is not None:
                return P(mk('el', obj.a[0], pos, es), r)
        return P(obj, t)

    def container(self, st, l):
        """The container value at a location, and its kind"""
        p = self.unloc(l)
        obj, off = p.a
        if obj.tag == 'el':
            v = self.load_special(st, obj, off, 24, 64, quiet=True)
            w = self.load_special(st, obj, off, 56, 64, quiet=True)
            return v, w
        o = st.m.get(obj)
        c = o.c.get(off) if o is not None else None
        if c is not None:
            return (c[1], None) if c[0] == 24 else (None, c[1]) if c[0] == 56 else (None, None)
        if o is not None and o.b:
            return blobval(o, off, 24), blobval(o, off, 56)
        if obj.tag == 'bo':
            return self.lazy(obj.a[0], off, 24), self.lazy(obj.a[0], off, 56)
        return None, None

    def load_special(self, st, obj, off, size, w, quiet=False):
        t = obj.tag
        if t == 'el':
            v, m = self.container(st, obj.a[0])
            pos = obj.a[1]
            r = None
            ismap = len(obj.a) > 2 and obj.a[2] == 'm' or kpos2(pos)
            if ismap:
                if isinstance(m, V) and m.tag == 'map':
                    r = self.map_elem(st, m, obj, off, size)
            elif isinstance(v, V) and v.tag == 'vec':
                r = self.vec_elem(st, v, obj, off, size)
            if r is not None:
                return r
            if quiet:
                return None
            if size == 32:
                return mkS(self.fresh(st, ('el', off)), frozenset(('?',)))
            return self.fresh(st, ('el', off), width_range(w) if w < 64 else None)
        if t == 'sd':
            s = self.sdv(st, obj)
            return self.char(st, s, off, size, w)
        if t == 'cs':
            i = obj.a[0]
            return self.char(st, mkS(i), off, size, w)
        if t == 'argv':
            k = None
            if isinstance(off, int):
                k = off // 8
            elif isinstance(off, V):
                tm, c = lin_parts(off) or ((), None)
                if c is not None and all(x % 8 == 0 for _, x in tm):
                    k = lin_make([(s, x // 8) for s, x in tm], c // 8)
            if k is None:
                return self.fresh(st, 'argv')
            return P(mk('cs', mk('f', mk('e', mk('o', 'argv'), k), 0)), 0)
        raise AnalysisError('load_special')

    def char(self, st, s, off, size, w):
        off = st.resolve(off)
        i = s.a[0]
        if i.tag == 'lit' and isinstance(off, int) and size in (1, 2, 4, 8) and 0 <= off <= len(i.a[0]):
            b = (i.a[0] + bytes(8))[off:off + size]
            return sgn(int.from_bytes(b, 'little'), 8 * size)
        if i.tag == 'bytes' and isinstance(off, int) and size == 1 and 0 <= off < len(i.a[0]):
            return i.a[0][off]
        if size == 1:
            if eval_cmp(st, 'eq', off, s.a[1], 64) is True:
                return 0
            v = mk('op', 'ch', i, off, 8)
            return st.resolve(v)
        return self.fresh(st, 'ch', width_range(w) if w < 64 else None)

    def vec_elem(self, st, v, obj, off, size):
        pos = st.resolve(obj.a[1])
        segs = v.a[1]
        lo = 0
        for s in segs:
            if s.tag == 'any':
                return self.any_elem(st, segs, off, size)
            hi = plus1(lo) if s.tag == 'one' else lin_add(lo, lin_add(s.a[2], s.a[1], -1))
            if hi is None:
                return self.any_elem(st, segs, off, size)
            a = eval_cmp(st, 'sge', pos, lo, 64)
            b = eval_cmp(st, 'slt', pos, hi, 64)
            if b is None and len(segs) == 1 and s.tag == 'sl':
                b = True        # elements are only accessed within bounds
            if a is True and b is True or (a is True and s is segs[-1]):
                if s.tag == 'one':
                    for o, n, x in s.a[0]:
                        if o == off and n == size:
                            return x
                    return None
                src, l = s.a[0], s.a[1]
                idx = lin_add(l, lin_add(pos, lo, -1))
                return self.src_elem(st, src, idx, off, size)
            if b is False:
                lo = hi
                continue
            break
        if size == 8 and any(s.tag == 'sl' and s.a[0].tag == 'cptr' for s in segs) and not any(s.tag == 'any' for s in segs):
            return mk('s', ('sel', v, off), pos)       # the same value whenever it is read
        return self.any_elem(st, segs, off, size)

    def src_elem(self, st, src, idx, off, size):
        if src.tag == 'cptr':
            return P(mk('sd', mk('el', src.a[0], idx, 32), 0), 0)
        return self.lazy(mk('e', src, idx), off, size) if isinstance(off, int) else None

    def any_elem(self, st, segs, off, size):
        """A value of some element: labels of all of them"""
        labels = frozenset()
        vals = []
        for s in segs:
            cells = s.a[0] if s.tag in ('one', 'any') else None
            if s.tag == 'sl':
                vals.append(self.src_elem(st, s.a[0], self.fresh(st, 'i', NAT), off, size))
                continue
            if s.tag == 'any':
                for src in s.a[1]:
                    vals.append(self.src_elem(st, src, self.fresh(st, 'i', NAT), off, size))
            for o, n, x in cells or ():
                if o == off and n == size:
                    vals.append(x)
        ss = [x for x in vals if isinstance(x, V) and x.tag == 'S']
        if ss and len(ss) == len(vals):
            for x in ss:
                labels = labels | S.slab(x)
            if all(x is ss[0] for x in ss) and not any(s.tag == 'any' for s in segs):
                return ss[0]
            return mkS(self.fresh(st, ('any', off)), labels)
        if vals and all(x is vals[0] or x == vals[0] for x in vals):
            return vals[0]
        return None

    def map_elem(self, st, m, obj, off, size):
        pos = obj.a[1]
        if kpos2(pos):
            d = dict(m.a[1])
            if pos in d:
                for o, n, x in d[pos]:
                    if o == off and n == size:
                        return x
                return None
        if m.a[0] and isinstance(m.a[0], V):
            return self.lazy(mk('e', m.a[0], pos), off, size) if isinstance(off, int) else None
        if size == 32:
            labels = m.a[2]
            for k, c in m.a[1]:
                labels = labels | entry_labels(k, c)
            return mkS(self.fresh(st, ('me', off)), labels)
        return None

    def store_special(self, st, obj, off, size, v):
        t = obj.tag
        if t == 'el':
            l = obj.a[0]
            vec, m = self.container(st, l)
            pos = st.resolve(obj.a[1]) if not kpos2(obj.a[1]) else obj.a[1]
            if (kpos2(pos) or (len(obj.a) > 2 and obj.a[2] == 'm')) and isinstance(m, V) and m.tag == 'map':
                d = dict(m.a[1])
                lb = m.a[2]
                if isinstance(v, V) and v.tag == 'S':
                    v = self.I.mon.mapvalue(st, l, next((x for o, n, x in d.get(pos, ()) if o == 0 and n == 32), None) if kpos2(pos) else None, v)
                if isinstance(off, int) and kpos2(pos):
                    cells = [c for c in d.get(pos, ()) if not (c[0] < off + size and off < c[0] + c[1])]
                    d[pos] = tuple(sorted(cells + [(off, size, v)], key=lambda c: c[0]))
                if not kpos2(pos) and isinstance(v, V) and v.tag == 'S':
                    lb = lb | v.a[2]
                st2 = mk('map', m.a[0], tuple(sorted(d.items(), key=lambda t: id(t[0]))), lb, m.a[3])
                self.I.store(st, self.unloc(l), 56, st2)
                return
            if isinstance(vec, V) and vec.tag == 'vec':
                segs = list(vec.a[1])
                k = None
                if isinstance(pos, int) and all(s.tag == 'one' for s in segs[:pos + 1]) and 0 <= pos < len(segs):
                    k = pos
                elif segs and segs[-1].tag == 'one' and isinstance(pos, V) and pos is lin_add(vec.a[2], -1):
                    k = len(segs) - 1
                if k is not None:
                    cells = [c for c in segs[k].a[0] if not (c[0] < off + size and off < c[0] + c[1])]
                    segs[k] = mk('one', tuple(sorted(cells + [(off, size, v)], key=lambda c: c[0])))
                else:
                    lb = S.slab(v) if isinstance(v, V) and v.tag == 'S' else frozenset()
                    c = ((off, size, mkS(self.fresh(st, 'wk'), lb)),) if isinstance(v, V) and v.tag == 'S' else None
                    segs = [S.Joiner(st, st, ('wk',), False).any(segs + ([mk('one', c)] if c else []), ('wk',))]
                self.I.store(st, self.unloc(l), 24, mk('vec', vec.a[0], norm_segs(segs), vec.a[2]))
            return
        if t == 'sd':
            s = self.sdv(st, obj)
            i = s.a[0]
            if isinstance(off, int) and size == 1 and i.tag == 'bytes' and 0 <= off < len(i.a[0]):
                b = list(i.a[0])
                b[off] = v
                self.sdp(st, obj, mk('S', mk('bytes', tuple(b)), s.a[1], s.a[2]))
                return
            self.sdp(st, obj, mk('S', self.fresh(st, 'chs'), s.a[1], s.a[2]))

    # ------------------------------------------------------------ comparisons and refinements
    def cmp(self, st, p, x, y):
        if isP(x) and isP(y) and x.a[0].tag == 'el' and y.a[0].tag == 'el' and x.a[0].a[0] is y.a[0].a[0]:
            a, b = x.a[0].a[1], y.a[0].a[1]
            if kpos2(a) or kpos2(b):
                if kpos2(a) and kpos2(b):
                    e = True if a is b else None
                else:
                    e = False
                if e is None or p not in ('eq', 'ne'):
                    return None
                return int(e == (p == 'eq'))
            if x.a[1] != y.a[1]:
                return None
            e = eval_cmp(st, p, a, b, 64)
            return int(e) if e is not None else mk('op', 'icmp', p, a, b, 64)
        if isP(x) and isP(y) and x.a[0] is y.a[0] and x.a[0].tag in ('sd', 'argv', 'cs', 'a', 'g', 'h'):
            e = eval_cmp(st, p, x.a[1], y.a[1], 64)
            return int(e) if e is not None else mk('op', 'icmp', p, x.a[1], y.a[1], 64)
        for a, b in ((x, y), (y, x)):
            if isinstance(b, int) and b == 0 and p in ('eq', 'ne') and isP(a):
                if a.a[0].tag == 'cs' and a.a[0].a[0].tag == 'f' and root(a.a[0].a[0]) is mk('o', 'argv'):
                    idx = a.a[0].a[0].a[0].a[1]
                    argc = mk('s', ('argc',), 'argc')
                    e = eval_cmp(st, p, idx, argc, 64)
                    return int(e) if e is not None else mk('op', 'icmp', p, idx, argc, 64)
                return int(p == 'ne')
        return None

    def refine(self, st, c, t):
        """Consequences of a condition beyond integer facts. False if infeasible."""
        if not isinstance(c, V) or c.tag != 'op':
            return True
        if c.a[0] == 'not':
            return self.refine(st, c.a[1], not t)
        if c.a[0] == 'icmp':
            p, x, y = c.a[1], c.a[2], c.a[3]
            if p == 'ne':
                t = not t
                p = 'eq'
            if p == 'eq' and isinstance(x, V) and x.tag == 'op':
                if x.a[0] == 'and' or x.a[0] == 'bitcat':
                    # some bit of a poll result is set: the descriptor was valid
                    if not t and isinstance(y, int) and y == 0:
                        for r in self.revs(x):
                            if not assume_cmp(st, 'sge', r.a[1], 0, 32):
                                return False
                            self.I.mon.ready(st, r, x)
                if x.a[0] == 'ch' and isinstance(y, int):
                    if (t and y != 0) or (not t and y == 0):
                        # a character other than NUL is within the string
                        if not assume_cmp(st, 'slt', x.a[2], ln(x.a[1]), 64) and False:
                            return False
        return True

    def revs(self, x):
        out = set()

        def walk(v):
            if isinstance(v, V):
                if v.tag == 'op' and v.a[0] == 'rev':
                    out.add(v)
                    return
                for y in v.a:
                    walk(y)
            elif isinstance(v, tuple):
                for y in v:
                    walk(y)
        walk(x)
        return sorted(out, key=lambda v: id(v))

    def streq(self, st, a, b):
        """Value of the comparison of two string contents"""
        x, y = a.a[0], b.a[0]
        if x is y:
            return 1
        if x.tag == 'lit' and y.tag == 'lit':
            return 0
        if eval_cmp(st, 'eq', a.a[1], b.a[1], 64) is False:
            return 0
        if x.tag == 'lit' or (y.tag != 'lit' and id(x) > id(y)):
            x, y = y, x
        v = mk('op', 'streq', x, y, 1)
        if y.tag == 'lit':
            for k, r in st.f.items():
                if isinstance(k, V) and k.tag == 'op' and k.a[0] == 'streq' and k.a[1] is x and r == R_set(1) and k.a[2].tag == 'lit':
                    return 1 if k.a[2] is y else 0
        return st.resolve(v)

    # ------------------------------------------------------------ memory regions
    def region(self, st, p, n):
        """Contents of n bytes at p: (cells, blobs) relative to p"""
        p = st.resolve(p)
        if not isP(p) or not isinstance(p.a[1], int):
            return {}, {}
        obj, off = p.a
        if obj.tag in ('bo',):
            return {}, {0: (n, ('sub', obj.a[0], off))}
        if obj.tag == 'g' and obj not in st.m:
            c = {}
            k = 0
            while k < n:
                sz = 8 if k + 8 <= n else 4 if k + 4 <= n else 1
                if n - k < 8 or True:
                    c[k] = (sz, self.I.initial(obj, off + k, sz))
                k += sz
            return c, {}
        o = st.m.get(obj)
        if o is None:
            return {}, {}
        c = {k - off: x for k, x in o.c.items() if isinstance(k, int) and off <= k and k + x[0] <= off + n}
        b = {k - off: x for k, x in (o.b or {}).items() if off <= k and k + x[0] <= off + n}
        return c, b

    def copy_region(self, st, src, dst, n):
        if not isinstance(n, int):
            return
        c, b = self.region(st, src, n)
        self.put_region(st, dst, n, c, b)

    def put_region(self, st, dst, n, c, b):
        dst = st.resolve(dst)
        if not isP(dst):
            return
        obj, off = dst.a
        if obj.tag in ('sd', 'el', 'bo', 'cs', 'argv') or not isinstance(off, int):
            if obj.tag == 'sd':
                self.store_special(st, obj, off, n if isinstance(n, int) else 1, None)
            elif obj.tag == 'el' and isinstance(off, int):
                for k, (z, v) in c.items():
                    self.I.store(st, P(obj, off + k), z, v)
            return
        o = st.m.get(obj, EMPTY)
        nc = {k: x for k, x in o.c.items() if isinstance(k, int) and not (k < off + n and off < k + x[0])}
        nb = {k: x for k, x in (o.b or {}).items() if not (off <= k and k + x[0] <= off + n)}
        for k, x in c.items():
            nc[off + k] = x
        for k, x in b.items():
            nb[off + k] = x
        st.m[obj] = Obj(nc, nb or None)

    def fields(self, st, p, t, n):
        """Contents of an object of library type t at p as element cells"""
        p = st.resolve(p)
        out = []
        for off, z in layout(t):
            if z is None:
                continue
            q = self.I.padd(st, p, off) if isP(p) else p
            if z == 32:
                v = self.gs(st, q)
            elif z == 24 and n != 24 or t.startswith('vector<'):
                v = self.gv(st, q)
            elif z == 56:
                v = self.gm(st, q)
            else:
                r = self.I.load(st, q, z, 8 * z)
                v = r[0][1] if r else 0
            out.append((off, z, v))
        return tuple(out)

    # ------------------------------------------------------------ calls
    def override(self, f):
        if f.cls == 'Logger':
            return True
        return (f.cls + '::' + f.meth if f.cls else f.meth) in self.pure

    def indirect(self, st, i, t):
        a = st.resolve(self.I.val(st, i['a'][0]['v'])) if i['a'] else None
        if isP(a) and a.a[0].tag == 'sp':
            # a virtual function of an exception object or stream
            return self.ret(st, P(mk('cs', mk('app', 'what')), 0))
        raise AnalysisError('unresolved indirect call at ' + self.I.where())

    def ret(self, st, v=None):
        return [('ret', st, v)]

    def call(self, st, f, args, i, ctx, site):
        n = f.name
        q = f.cls + '::' + f.meth if f.cls else f.meth
        if q in self.pure:
            return self.do_pure(st, f, q, args, i)
        if self.I.is_opaque(f):
            return self.do_opaque(st, f, args, i)
        if f.cls == 'Logger':
            return self.do_logger(st, f, args, i)
        h = None
        if not f.cls:
            h = LIBC.get(f.meth) or (LIBC.get(f.sym) if not f.blocks else None)
            if h:
                return h(self, st, f, args, i)
            if f.meth.startswith('llvm.'):
                return self.do_llvm(st, f, args, i)
            if f.meth == 'operator==' or f.meth == 'operator!=':
                r = self.do_eq(st, f, args)
                if r is not None:
                    return r
            if f.meth == 'operator+' and 'string' in f.args:
                return self.do_plus(st, f, args, i)
            if f.meth == 'operator<<' and 'ostream' in f.args.split(',')[0]:
                return self.ret(st, args[0])
            if f.meth in ('to_string',):
                s = mk('app', 'to_string', st.resolve(args[1]))
                st = self.ps(st, args[0], mkS(s))
                return self.ret(st)
            if f.meth in ('stoll', 'stoul', 'stoi', 'stol', 'stoull', 'strtol'):
                return self.do_stox(st, f, args, i)
            if f.meth == 'make_shared':
                return self.do_make_shared(st, f, args, i)
            if f.meth in ('setw', 'setfill', 'search', 'swap') and not (f.meth == 'swap'):
                return self.havoc(st, f, args, i)
        c = f.cls
        if c == 'string' or c.startswith('basic_string<') or c == 'basic_string':
            return self.do_string(st, f, args, i)
        if c.startswith('vector<'):
            return self.do_vector(st, f, args, i)
        if c.startswith('unordered_map<') or c.startswith('map<'):
            return self.do_map(st, f, args, i)
        if c.startswith('__detail::_Node_'):
            return self.do_nodeit(st, f, args, i)
        if c.startswith('shared_ptr<') or c.startswith('__shared_ptr'):
            return self.do_shared(st, f, args, i)
        if c.startswith(ABSTRACT):
            return self.do_stream(st, f, args, i)
        if c == 'runtime_error' or c.endswith('_error') or c in ('exception', 'invalid_argument', 'out_of_range'):
            if f.meth == 'what':
                return self.ret(st, P(mk('cs', mk('app', 'what')), 0))
            return self.ret(st, None)
        if f.meth == 'now' and 'clock' in c:
            return self.ret(st, self.fresh(st, 'now', R_iv(0, 1 << 60)))
        if f.blocks:
            return self.I.call_user(f, ctx, site, i, st, args)
        return self.havoc(st, f, args, i)

    def havoc(self, st, f, args, i):
        """Unknown function without effects of interest: arbitrary result; memory it can reach changes."""
        self.unknown[f.name] = self.unknown.get(f.name, 0) + 1
        self.I.mon.unknown(st, f, args)
        for a, d in zip(args, i['a']):
            a = st.resolve(a)
            if d.get('sret') and isP(a):
                self.put_region(st, a, d['sret'], {}, {0: (d['sret'], self.fresh(st, 'sret'))})
            elif d['t'] == 'ptr' and isP(a) and a.a[0].tag in ('a', 'h') and f.meth not in ('setw', 'setfill'):
                o = st.m.get(a.a[0])
                if o is not None and isinstance(a.a[1], int):
                    c = {k: x for k, x in o.c.items() if isinstance(k, int) and k < a.a[1]}
                    st.m[a.a[0]] = Obj(c, None)
        if 'd' in i:
            w = i.get('w', 64)
            return self.ret(st, self.fresh(st, 'ret', width_range(w) if w < 64 else None))
        return self.ret(st)

    def throws(self, f):
        """Whether a function can throw (transitively contains a throw)"""
        if self.canthrow is None:
            rev = {}
            base = set()
            for g in self.I.p.fns.values():
                for b in g.blocks:
                    for x in b:
                        if x['o'] in ('call', 'invoke'):
                            fn = x['fn']
                            t = fn[1] if fn[0] == 'f' else fn[1].a[0] if fn[0] == 'c' and isinstance(fn[1], V) and fn[1].tag == 'F' else None
                            if t is not None:
                                if t in ('__cxa_throw',):
                                    if g.user:
                                        base.add(g.sym)
                                rev.setdefault(t, set()).add(g.sym)
            work = list(base)
            seen = set(base)
            while work:
                x = work.pop()
                for y in rev.get(x, ()):
                    if y not in seen and self.I.p.fns[y].user:
                        seen.add(y)
                        work.append(y)
            self.canthrow = seen
        return f.sym in self.canthrow

    def ids(self, st, args):
        out = []
        lb = frozenset()
        for a in args:
            a = st.resolve(a)
            if isP(a):
                if a.a[0].tag in ('cs', 'sd') or (a.a[0].tag == 'g' and self.cstr(st, a) is not None):
                    s = self.cstr(st, a)
                else:
                    try:
                        s = self.gs(st, a)
                    except Exception:
                        s = None
                if s is not None:
                    out.append(s.a[0])
                    lb = lb | s.a[2]
            else:
                out.append(a)
        return tuple(out), lb

    def do_pure(self, st, f, q, args, i):
        kind = self.pure[q]
        self.I.mon.count('calls treated as arbitrary: ' + q)
        outs = []
        if self.throws(f):
            outs += self.I.throw(st.copy(), RUNTIME)
        if kind == 'b':
            x, lb = self.ids(st, args)
            if q == 'Logger::shouldLogDebug':
                return outs + self.ret(st, self.fresh(st, 'b', R_set(0, 1)))
            return outs + self.ret(st, mk('op', 'bool', q, x, 1))
        x, lb = self.ids(st, args[1:]) if q not in ('Utilities::substituteEnvironmentVariables',) else self.ids(st, args[1:2])
        if q == 'Utilities::substituteEnvironmentVariables':
            m = self.gm(st, args[2])
            lb = lb | m.a[2]
            for k, c in m.a[1]:
                lb = lb | entry_labels(k, c)
            lb = lb | {'env'}
            idv = mk('app', q, x[0], m) if not syms(m) else self.fresh(st, 'subst')
        elif q == 'Utilities::getWorkingDirectory':
            idv = mk('app', q, st.g.get('cwd', 0))
        else:
            idv = mk('app', q, *x)
        if q in PURE_LABEL:
            lb = lb | {PURE_LABEL[q]}
        if S.SHAPES:
            lb = frozenset(((PURE_LABEL[q],),)) if q in PURE_LABEL else S.shape_mod(frozenset(t if isinstance(t, tuple) else (t,) for t in lb), q.split('::')[-1])
        if kind == 's':
            st = self.ps(st, args[0], mkS(idv, lb))
            return outs + self.ret(st)
        if kind == 'o':
            p = st.resolve(args[0])
            s2 = st.copy()
            self.ps(st, p, mkS(idv, lb))
            self.I.store(st, self.I.padd(st, p, 32), 1, 1)
            self.ps(s2, p, lit(b''))
            self.I.store(s2, self.I.padd(s2, p, 32), 1, 0)
            self.I.mon.post(s2, q, args, 0, True)
            return outs + self.ret(st) + self.ret(s2)
        if kind == 'B':
            p = st.resolve(args[0])
            n = i['a'][0].get('sret') or 256
            self.put_region(st, p, n, {}, {0: (n, mk('o', 'cfg'))})
            return outs + self.ret(st)
        raise AnalysisError(kind)

    def do_opaque(self, st, f, args, i):
        outs = []
        if self.throws(f):
            outs += self.I.throw(st.copy(), RUNTIME)
        return outs + self.havoc(st, f, args, i)

    def do_logger(self, st, f, args, i):
        if f.meth == 'getStream':
            return self.ret(st, P(mk('sp', 'logstream'), 0))
        if f.meth == 'shouldLogDebug':
            return self.ret(st, self.fresh(st, 'b', R_set(0, 1)))
        return self.ret(st)

    def do_llvm(self, st, f, args, i):
        m = f.meth
        if m.startswith('llvm.memcpy') or m.startswith('llvm.memmove'):
            n = st.resolve(args[2])
            src, dst = st.resolve(args[1]), st.resolve(args[0])
            if isinstance(n, int):
                if isP(src) and src.a[0].tag in SPECIALTAGS:
                    sizes = {8: [8], 16: [8, 8], 4: [4], 1: [1], 2: [2]}.get(n)
                    if sizes:
                        k = 0
                        for z in sizes:
                            r = self.I.load(st, self.I.padd(st, src, k), z, 8 * z)
                            self.I.store(st, self.I.padd(st, dst, k), z, r[0][1])
                            k += z
                        return self.ret(st)
                self.copy_region(st, src, dst, n)
            else:
                self.put_region(st, dst, 1 << 16, {}, {})
            return self.ret(st, args[0])
        if m.startswith('llvm.memset'):
            v, n = st.resolve(args[1]), st.resolve(args[2])
            p = st.resolve(args[0])
            if isP(p) and p.a[0].tag == 'sd':
                self.store_special(st, p.a[0], p.a[1], 0, None)
                return self.ret(st)
            if isinstance(n, int):
                if v == 0 and isinstance(v, int):
                    self.put_region(st, p, n, {}, {0: (n, 0)})
                else:
                    self.put_region(st, p, n, {}, {})
            return self.ret(st)
        if m.startswith('llvm.bswap.i'):
            import libc
            w = int(m[12:])
            x = st.resolve(args[0])
            return self.ret(st, libc.swap16(self, st, x) if w == 16 else libc.swap(self, st, x, w))
        if m == 'llvm.eh.typeid.for':
            t = args[0]
            return self.ret(st, mk('ti', t.a[0].a[0] if isP(t) else str(t)))
        if 'with.overflow' in m:
            return self.havoc(st, f, args, i)
        for k, p in (('umin', 'ult'), ('smin', 'slt'), ('umax', 'ugt'), ('smax', 'sgt')):
            if m.startswith('llvm.' + k):
                out = []
                for t in (True, False):
                    s2 = st.copy()
                    if assume_cmp(s2, p if t else INV[p], args[0], args[1], 64):
                        out.append(('ret', s2, args[0] if t else args[1]))
                return out
        return self.havoc(st, f, args, i) if 'd' in i else self.ret(st)

    def do_eq(self, st, f, args):
        a = f.args
        neg = f.meth == 'operator!='
        if a.startswith('string const&'):
            x = self.gs(st, args[0])
            y = self.gs(st, args[1]) if 'string const&, string const&' in a else self.cstr(st, args[1])
        elif a.startswith('char const*, string'):
            x, y = self.cstr(st, args[0]), self.gs(st, args[1])
        else:
            return None
        if x is None or y is None:
            return self.ret(st, self.fresh(st, 'eq', R_set(0, 1)))
        e = self.streq(st, x, y)
        self.I.mon.compare(st, x, y)
        return self.ret(st, self.I.neg(e) if neg else e)

    def cstr(self, st, p):
        """The C string a pointer designates, as an S value"""
        p = st.resolve(p)
        if not isP(p):
            t = self.I.targets(st, p)
            if t and len(t) == 1:
                p = t[0][1]
            elif t:
                ss = [self.cstr(s2, q) for s2, q in t]
                if all(s is not None for s in ss):
                    if all(s is ss[0] for s in ss):
                        return ss[0]
                    return mk('S', self.fresh(st, 'u'), self.fresh(st, 'un', NAT), frozenset().union(*[s.a[2] for s in ss]))
                return None
            else:
                return None
        obj, off = p.a
        off = st.resolve(off)
        if obj.tag == 'sd':
            s = self.sdv(st, obj)
            if isinstance(off, int) and off == 0:
                return s
            return self.substr(st, s, off, None)
        if obj.tag == 'cs':
            s = mkS(obj.a[0], origin_labels(obj.a[0]) or (frozenset(('env',)) if obj.a[0].tag == 'env' else frozenset((obj.a[0].a[0],)) if obj.a[0].tag == 'app' else frozenset()))
            if isinstance(off, int) and off == 0:
                return s
            return self.substr(st, s, off, None)
        if obj.tag == 'g':
            g = self.I.p.globals.get(obj.a[0])
            if g and 'init' in g and isinstance(off, int) and obj not in st.m:
                b = bytes.fromhex(g['init'])[off:]
                k = b.find(b'\0')
                if k >= 0:
                    return lit(b[:k])
            return None
        if obj.tag in ('a', 'h'):
            return mkS(self.fresh(st, 'buf'), frozenset(('buf',)))
        return None

    def substr(self, st, s, off, n):
        i = s.a[0]
        off = st.resolve(off)
        n = st.resolve(n) if n is not None else None
        if n == -1:
            n = None
        if isinstance(off, int) and off == 0 and n is None:
            return s
        if S.SHAPES and i.tag != 'lit':
            s = mk('S', i, s.a[1], S.shape_mod(S.shapes(s), 'part'))
        if i.tag == 'lit' and isinstance(off, int) and (n is None or isinstance(n, int)):
            b = i.a[0][off:] if n is None else i.a[0][off:off + n] if n >= 0 else i.a[0][off:]
            return mk('S', mk('lit', b), len(b), s.a[2])
        if n is None:
            d = lin_add(s.a[1], off, -1)
            idv = mk('sub', i, off)
            return mk('S', idv, d if d is not None else mk('s', LN, idv), s.a[2])
        idv = mk('sub', i, off, n)
        l = None
        e = lin_add(off, n)
        if e is not None and eval_cmp(st, 'sle', e, s.a[1], 64) is True and eval_cmp(st, 'sge', n, 0, 64) is True:
            l = n
        return mk('S', idv, l if l is not None else mk('s', LN, idv), s.a[2])

    def concat(self, st, a, b):
        i = cat_ids(a.a[0], b.a[0])
        n = lin_add(a.a[1], b.a[1])
        if i is None or len(syms(i)) > 40:
            i = self.fresh(st, 'cat')
        return mk('S', i, n if n is not None else mk('s', LN, i), S.shape_cat(S.shapes(a), S.shapes(b)) if S.SHAPES else a.a[2] | b.a[2])

    def do_plus(self, st, f, args, i):
        parts = []
        for a, t in zip(args[1:], split_args(f.args)):
            if 'string' in t:
                parts.append(self.gs(st, a))
            elif t.strip() == 'char':
                a = st.resolve(a)
                parts.append(lit(bytes([uns(a, 8)])) if isinstance(a, int) else mkS(mk('app', 'chr', a), n=1))
            else:
                s = self.cstr(st, a)
                parts.append(s if s is not None else mkS(self.fresh(st, 'cs')))
        st = self.ps(st, args[0], self.concat(st, parts[0], parts[1]))
        return self.ret(st)

    def do_stox(self, st, f, args, i):
        s = self.gs(st, args[0]) if 'string' in f.args else self.cstr(st, args[0])
        outs = []
        s2, s3 = st.copy(), st.copy()
        outs += self.I.throw(s2, INVALID)
        outs += self.I.throw(s3, RANGE)
        v = mk('s', ('num',), f.meth, s.a[0]) if s is not None else self.fresh(st, 'num')
        if s is not None and s.a[0].tag == 'lit':
            import re
            if re.fullmatch(rb'[-+]?[0-9]{1,9}', s.a[0].a[0]):
                v = int(s.a[0].a[0])
                self.I.mon.post(st, f.meth, [s], v, False)
                return self.ret(st, v)
        if f.meth in ('stoul', 'stoull') and isinstance(v, V) and v not in st.f:
            pass
        self.I.mon.post(st, f.meth, [s], v, False)
        return outs + self.ret(st, v)

    # ------------------------------------------------------------ std::string
    def do_string(self, st, f, args, i):
        m, a = f.meth, f.args
        this = args[0] if args else None
        sret = bool(i['a'] and i['a'][0].get('sret'))
        if m in ('basic_string', 'string'):
            al = split_args(a)
            if not al or al == ['']:
                v = lit(b'')
            elif al[0].startswith('char const*') or al[0] == 'char*':
                v = self.cstr(st, args[1])
                if len(al) > 1 and al[1].startswith('size_t') and v is not None:
                    v = mkS(mk('sub', v.a[0], 0, st.resolve(args[2])), v.a[2], st.resolve(args[2]))
            elif al[0].startswith('size_t'):
                n = st.resolve(args[1])
                c = st.resolve(args[2])
                if isinstance(n, int) and isinstance(c, int) and n <= 16:
                    v = lit(bytes([uns(c, 8)]) * n)
                else:
                    v = mkS(mk('app', 'fill', n, c), n=n)
            elif al[0] in ('string const&', 'string&&'):
                v = self.gs(st, args[1])
                if len(al) >= 2 and al[1].startswith('size_t'):
                    v = self.substr(st, v, args[2], args[3] if len(al) > 2 and al[2].startswith('size_t') else None)
            else:
                v = None
            if v is None:
                v = mkS(self.fresh(st, 'str'), frozenset(('?',)))
            st = self.ps(st, this, v)
            if al and al[0] == 'string&&':
                st = self.ps(st, args[1], lit(b''))
            return self.ret(st)
        if m.startswith('~'):
            p = st.resolve(this)
            return self.ret(st)
        if sret:
            if m == 'substr':
                st = self.ps(st, args[0], self.substr(st, self.gs(st, args[1]), args[2], args[3]))
                return self.ret(st)
            return self.havoc(st, f, args, i)
        s = self.gs(st, this)
        if m in ('length', 'size'):
            return self.ret(st, s.a[1])
        if m == 'empty':
            e = eval_cmp(st, 'eq', s.a[1], 0, 64)
            return self.ret(st, int(e) if e is not None else mk('op', 'icmp', 'eq', s.a[1], 0, 64))
        if m in ('c_str', 'data', 'begin', 'cbegin'):
            p = st.resolve(this)
            if not isP(p):
                return self.havoc(st, f, args, i)
            return self.ret(st, P(mk('sd', p.a[0], p.a[1]), 0))
        if m in ('end', 'cend'):
            p = st.resolve(this)
            return self.ret(st, P(mk('sd', p.a[0], p.a[1]), s.a[1]))
        if m in ('operator[]', 'at', 'front', 'back'):
            p = st.resolve(this)
            if not isP(p):
                return self.havoc(st, f, args, i)
            idx = 0 if m == 'front' else lin_add(s.a[1], -1) if m == 'back' else st.resolve(args[1])
            self.I.mon.index(st, 'string', s, idx)
            return self.ret(st, P(mk('sd', p.a[0], p.a[1]), idx))
        if m == 'operator=' or m == 'assign':
            al = split_args(a)
            if al[0].startswith('char const*'):
                v = self.cstr(st, args[1])
            elif al[0] == 'char':
                c = st.resolve(args[1])
                v = lit(bytes([uns(c, 8)])) if isinstance(c, int) else mkS(mk('app', 'chr', c), n=1)
            elif 'string' in al[0]:
                v = self.gs(st, args[1])
            else:
                v = None
            if v is None or len(al) > 1:
                v = mkS(self.fresh(st, 'str'), frozenset(('?',)))
            st = self.ps(st, this, v)
            if al[0] == 'string&&' and st.resolve(args[1]) is not st.resolve(this):
                st = self.ps(st, args[1], lit(b''))
            return self.ret(st, this)
        if m in ('append', 'operator+=', 'push_back'):
            al = split_args(a)
            if al[0].startswith('char const*'):
                v = self.cstr(st, args[1])
                if len(al) > 1:
                    n = st.resolve(args[2])
                    self.I.mon.span(st, 'read', args[1], n)
                    if v is not None:
                        if isinstance(n, int) and n == 0:
                            v = lit(b'')
                        else:
                            v = mk('S', mk('sub', v.a[0], 0, n), n, v.a[2])
            elif al[0] == 'char':
                c = st.resolve(args[1])
                v = lit(bytes([uns(c, 8)])) if isinstance(c, int) else mkS(mk('app', 'chr', c), n=1)
            elif 'string' in al[0]:
                v = self.gs(st, args[1])
                if len(al) > 1:
                    v = self.substr(st, v, args[2], args[3] if len(al) > 2 else None)
            else:
                v = None
            if v is None:
                v = mkS(self.fresh(st, 'str'), frozenset(('?',)))
            st = self.ps(st, this, self.concat(st, s, v))
            return self.ret(st, this)
        if m == 'clear':
            st = self.ps(st, this, lit(b''))
            return self.ret(st)
        if m in ('reserve', 'shrink_to_fit', 'capacity'):
            return self.ret(st)
        if m == 'resize':
            n = st.resolve(args[1])
            st = self.ps(st, this, mk('S', mk('app', 'resize', s.a[0], n), n, s.a[2]))
            return self.ret(st)
        if m == 'swap':
            t = self.gs(st, args[1])
            st = self.ps(st, this, t)
            st = self.ps(st, args[1], s)
            return self.ret(st)
        if m == 'pop_back':
            st = self.ps(st, this, self.substr(st, s, 0, lin_add(s.a[1], -1)))
            return self.ret(st)
        if m in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of'):
            al = split_args(a)
            c = st.resolve(args[1])
            key = c if al[0] == 'char' else (self.gs(st, c) if 'string' in al[0] else self.cstr(st, c))
            pos = st.resolve(args[2]) if len(args) > 2 else 0
            if isinstance(key, V) and key.tag == 'S':
                key = key.a[0]
            r = mk('s', ('find',), m, s.a[0], key, pos) if key is not None else self.fresh(st, 'find')
            nf, fd = st.copy(), st
            nf.f[r] = R_set(-1)
            outs = []
            if r in fd.f and not r_contains(fd.f[r], -1) or True:
                pre = fd.f.get(r)
                ok = True
                if pre == R_set(-1):
                    ok = False
                else:
                    fd.f[r] = R_iv(0, None)
                    kl = len(key.a[0]) if isinstance(key, V) and key.tag == 'lit' else 1
                    ok = assume_cmp(fd, 'sle', lin_add(r, kl), s.a[1], 64) if isinstance(s.a[1], (int, V)) else True
                    if ok and m == 'find' and (isinstance(pos, int) and pos >= 0 or isinstance(pos, V)):
                        ok = assume_cmp(fd, 'sge', r, pos, 64)
                if ok:
                    outs.append(('ret', fd, r))
                if pre is None or r_contains(pre, -1):
                    outs.append(('ret', nf, -1))
            return outs
        if m == 'compare':
            x = self.gs(st, args[1]) if 'string' in split_args(a)[0] and len(args) == 2 else self.cstr(st, args[1]) if len(args) == 2 else None
            if x is not None:
                e = self.streq(st, s, x)
                if isinstance(e, int):
                    return self.ret(st, 0) if e else self.ret(st, self.fresh(st, 'cmp', ('iv', None, None, frozenset((0,)))))
                return self.ret(st, self.I.neg(e))
            sub = None
            al = split_args(a)
            if len(al) == 3:
                sub = self.substr(st, s, args[1], args[2])
                x = self.gs(st, args[3]) if 'string' in al[2] else self.cstr(st, args[3])
                if x is not None:
                    e = self.streq(st, sub, x)
                    return self.ret(st, self.I.neg(e))
            return self.ret(st, self.fresh(st, 'cmp', width_range(32)))
        if m == 'erase':
            al = split_args(a)
            if al[0] == 'size_t':
                off, n = st.resolve(args[1]), st.resolve(args[2])
                self.I.mon.erase(st, s, off, n)
                if isinstance(off, int) and off == 0:
                    if isinstance(n, int) and n == 0:
                        return self.ret(st, this)
                    if isinstance(n, int) and n == -1:
                        v = lit(b'')
                    else:
                        v = self.substr(st, s, n, None)
                        if eval_cmp(st, 'sle', n, s.a[1], 64) is not True:
                            v = mk('S', v.a[0], mk('s', LN, v.a[0]), v.a[2])
                else:
                    v = mkS(mk('app', 'erase', s.a[0], off, n), S.shape_mod(S.shapes(s), 'erase') if S.SHAPES else s.a[2])
                st = self.ps(st, this, v)
                return self.ret(st, this)
        if m == 'replace':
            al = split_args(a)
            if len(al) == 3 and al[0] == 'size_t':
                v = self.gs(st, args[3]) if 'string' in al[2] else self.cstr(st, args[3])
                if v is not None:
                    off = st.resolve(args[1])
                    pre = self.substr(st, s, 0, off)
                    st = self.ps(st, this, mkS(mk('app', 'replace', s.a[0], off, st.resolve(args[2]), v.a[0]), S.shape_mod(S.shapes(s) | S.shapes(v), 'replace') if S.SHAPES else s.a[2] | v.a[2]))
                    return self.ret(st, this)
        if m == 'insert':
            st = self.ps(st, this, mkS(self.fresh(st, 'ins'), s.a[2] | self.ids(st, args[1:])[1]))
            return self.ret(st, this)
        # other members: the string becomes arbitrary unless const
        if 'const' not in f.name.rsplit(')', 1)[-1]:
            st = self.ps(st, this, mkS(self.fresh(st, 'str'), s.a[2] | frozenset(('?',))))
        return self.havoc(st, f, args[1:], dict(i, a=i['a'][1:]))

    # ------------------------------------------------------------ std::vector
    def vec_append(self, st, this, t, n, cells):
        v = self.gv(st, this)
        p = st.resolve(this)
        cells = self.I.mon.append(st, self.loc(p), cells) if isP(p) else cells
        ln1 = plus1(v.a[2])
        nv = mk('vec', 0, norm_segs(list(v.a[1]) + [mk('one', cells)]), ln1)
        if len(nv.a[1]) > 24:
            nv = mk('vec', 0, (S.Joiner(st, st, ('wk',), False).any(list(nv.a[1]), ('wk',)),), ln1)
        self.I.store(st, this, 24, nv)
        return P(mk('el', self.loc(p), v.a[2], n), 0) if isP(p) else self.fresh(st, 'el')

    def do_vector(self, st, f, args, i):
        m, a = f.meth, f.args
        t = tmpl_args(f.cls)[0]
        n = esize(t)
        this = args[0] if args else None
        if n == 1 and t != 'bool':
            return self.do_bytes(st, f, args, i)
        if m == 'vector':
            al = split_args(a)
            if not al or al == ['']:
                v = mk('vec', 0, (), 0)
            elif al[0].startswith('vector<'):
                v = self.gv(st, args[1])
                if al[0].endswith('&&'):
                    self.I.store(st, args[1], 24, mk('vec', 0, (), 0))
            elif al[0].startswith('size_t'):
                k = st.resolve(args[1])
                if isinstance(k, int) and k <= 8 and len(al) < 2 and n:
                    v = mk('vec', 0, tuple(mk('one', tuple((o, z, lit(b'') if z == 32 else 0) for o, z in layout(t))) for _ in range(k)), k)
                    # norm_segs would merge nothing here; identical elements stay separate
                else:
                    v = mk('vec', 0, (mk('any', None, frozenset()),), k)
            elif al[0].startswith('initializer_list') and n:
                p, k = st.resolve(args[1]), st.resolve(args[2]) if len(args) > 2 else None
                if isinstance(k, int) and k < 64:
                    segs = [mk('one', self.fields(st, self.I.padd(st, p, n * x), t, n)) for x in range(k)]
                    v = mk('vec', 0, tuple(segs), k)
                else:
                    v = mk('vec', 0, (mk('any', None, frozenset()),), self.fresh(st, 'n', NAT))
            elif '__normal_iterator' in al[0] or (len(al) >= 2 and al[0] == al[1]):
                v = mk('vec', 0, self.slice(st, args[1], args[2]), self.dist(st, args[1], args[2]))
            else:
                v = mk('vec', 0, (mk('any', None, frozenset()),), self.fresh(st, 'n', NAT))
            self.I.store(st, this, 24, v)
            return self.ret(st)
        if m.startswith('~'):
            return self.ret(st)
        v = self.gv(st, this)
        p = st.resolve(this)
        if not isP(p):
            return self.havoc(st, f, args, i)
        l = self.loc(p)
        el = lambda pos: P(mk('el', l, pos, n), 0)
        if m in ('size',):
            return self.ret(st, v.a[2])
        if m == 'empty':
            e = eval_cmp(st, 'eq', v.a[2], 0, 64)
            return self.ret(st, int(e) if e is not None else mk('op', 'icmp', 'eq', v.a[2], 0, 64))
        if m in ('begin', 'cbegin', 'data', 'front'):
            return self.ret(st, el(0))
        if m in ('end', 'cend'):
            return self.ret(st, el(v.a[2]))
        if m == 'back':
            return self.ret(st, el(plus(v.a[2], -1)))
        if m in ('operator[]', 'at'):
            idx = st.resolve(args[1])
            self.I.mon.index(st, 'vector', v, idx)
            return self.ret(st, el(idx))
        if m in ('push_back', 'emplace_back'):
            x = args[1] if len(args) > 1 else None
            at = f.tmpl if m == 'emplace_back' else t
            cells = self.elem_from(st, t, n, args[1:], f)
            if len(args) == 2 and f.args.endswith('&&') and t == 'string' and cells:
                src = st.resolve(args[1])
                if isP(src) and 'string' in f.args:
                    st = self.ps(st, src, lit(b''))
            r = self.vec_append(st, this, t, n, cells)
            return self.ret(st, r)
        if m == 'pop_back':
            self.I.mon.shrink(st, l, v, m)
            segs = list(v.a[1])
            k = plus(v.a[2], -1)
            if segs and segs[-1].tag == 'one':
                segs.pop()
            elif segs and segs[-1].tag == 'sl':
                segs[-1] = mk('sl', segs[-1].a[0], segs[-1].a[1], plus(segs[-1].a[2], -1))
            self.I.store(st, this, 24, mk('vec', 0, norm_segs(segs), k))
            return self.ret(st)
        if m in ('clear', 'erase', 'resize', 'operator=', 'assign'):
            self.I.mon.shrink(st, l, v, m)
        if m == 'clear':
            self.I.store(st, this, 24, mk('vec', 0, (), 0))
            return self.ret(st)
        if m in ('reserve', 'shrink_to_fit'):
            return self.ret(st)
        if m == 'operator=':
            w = self.gv(st, args[1])
            self.I.store(st, this, 24, w)
            if a.endswith('&&'):
                q = st.resolve(args[1])
                if q is not p:
                    self.I.store(st, args[1], 24, mk('vec', 0, (), 0))
            return self.ret(st, this)
        if m == 'swap':
            w = self.gv(st, args[1])
            self.I.store(st, this, 24, w)
            self.I.store(st, args[1], 24, v)
            return self.ret(st)
        if m == 'insert' and len(args) == 4:
            at = self.itpos(st, args[1], l)
            ins = self.slice(st, args[2], args[3])
            k = self.dist(st, args[2], args[3])
            pre, post = self.split_segs(st, v, at)
            nl = lin_add(v.a[2], k)
            self.I.mon.insert(st, l, at, ins)
            self.I.store(st, this, 24, mk('vec', 0, norm_segs(pre + list(ins) + post), nl if nl is not None else self.fresh(st, 'n', NAT)))
            return self.ret(st, args[1])
        if m in ('insert', 'emplace') and len(args) == 3:
            at = self.itpos(st, args[1], l)
            cells = self.elem_from(st, t, n, args[2:], f)
            cells = self.I.mon.append(st, l, cells)
            pre, post = self.split_segs(st, v, at)
            self.I.mon.insert(st, l, at, (mk('one', cells),))
            self.I.store(st, this, 24, mk('vec', 0, norm_segs(pre + [mk('one', cells)] + post), plus1(v.a[2])))
            return self.ret(st, args[1])
        if m == 'erase':
            b = self.itpos(st, args[1], l)
            e = self.itpos(st, args[2], l) if len(args) > 2 else (plus(b, 1) if b is not None else None)
            if b is not None and e is not None:
                pre, _ = self.split_segs(st, v, b)
                _, post = self.split_segs(st, v, e)
                d = lin_add(e, b, -1)
                nl = lin_add(v.a[2], d, -1) if d is not None else None
                self.I.store(st, this, 24, mk('vec', 0, norm_segs(pre + post), nl if nl is not None else self.fresh(st, 'n', NAT)))
                return self.ret(st, args[1])
            self.I.store(st, this, 24, mk('vec', 0, (S.Joiner(st, st, ('wk',), False).any(list(v.a[1]), ('wk',)),), self.fresh(st, 'n', NAT)))
            return self.ret(st, args[1])
        if m == 'resize':
            k = st.resolve(args[1])
            self.I.store(st, this, 24, mk('vec', 0, (mk('any', None, frozenset()),), k))
            return self.ret(st)
        return self.havoc(st, f, args, i)

    def elem_from(self, st, t, n, args, f):
        if not args:
            return tuple((o, z, lit(b'') if z == 32 else 0) for o, z in layout(t))
        src = st.resolve(args[0])
        if t == 'string':
            al = f.tmpl if f.meth.startswith('emplace') else 'string'
            if 'char' in al and 'string' not in al:
                r = self.I.load(st, src, 8, 64)
                s = self.cstr(st, r[0][1])
                return ((0, 32, s if s is not None else mkS(self.fresh(st, 'cs'), frozenset(('?',)))),)
            if len(args) == 1:
                return ((0, 32, self.gs(st, src)),)
            return ((0, 32, mkS(self.fresh(st, 'ns'), self.ids(st, args)[1])),)
        if n in (1, 2, 4, 8) and not t.startswith('Pipe'):
            r = self.I.load(st, src, n, 8 * n)
            return ((0, n, r[0][1]),)
        return self.fields(st, src, t, n)

    def itpos(self, st, it, l):
        """Position of an iterator (passed by value, or by a pointer to it) in the container at l"""
        it = st.resolve(it)
        if isP(it) and it.a[0].tag == 'el' and it.a[0].a[0] is l:
            return it.a[0].a[1]
        if isP(it) and it.a[0].tag in ('a', 'h'):
            r = self.I.load(st, it, 8, 64)
            v = st.resolve(r[0][1])
            if isP(v) and v.a[0].tag == 'el' and v.a[0].a[0] is l:
                return v.a[0].a[1]
        return None

    def itval(self, st, it):
        it = st.resolve(it)
        if isP(it) and it.a[0].tag in ('a', 'h'):
            r = self.I.load(st, it, 8, 64)
            it = st.resolve(r[0][1])
        return it

    def slice(self, st, b, e):
        """Segments of the range between two iterators"""
        b, e = self.itval(st, b), self.itval(st, e)
        if isP(b) and isP(e) and b.a[0].tag == 'el' and e.a[0].tag == 'el' and b.a[0].a[0] is e.a[0].a[0]:
            v, _ = self.container(st, b.a[0].a[0])
            if isinstance(v, V) and v.tag == 'vec':
                x, y = b.a[0].a[1], e.a[0].a[1]
                pre, post = self.split_segs(st, v, y)
                _, mid = self.split_segs(st, mk('vec', 0, tuple(pre), y), x)
                return tuple(mid)
        return (mk('any', None, frozenset()),)

    def dist(self, st, b, e):
        b, e = self.itval(st, b), self.itval(st, e)
        if isP(b) and isP(e) and b.a[0].tag == 'el' and e.a[0].tag == 'el' and b.a[0].a[0] is e.a[0].a[0]:
            d = lin_add(e.a[0].a[1], b.a[0].a[1], -1)
            if d is not None:
                return d
        return self.fresh(st, 'n', NAT)

    def split_segs(self, st, v, at):
        """Segments before and after a position"""
        if at is None:
            a = [S.Joiner(st, st, ('wk',), False).any(list(v.a[1]), ('wk',))]
            return a, a
        at = st.resolve(at)
        if isinstance(at, int) and at == 0:
            return [], list(v.a[1])
        if at is v.a[2] or eval_cmp(st, 'eq', at, v.a[2], 64) is True:
            return list(v.a[1]), []
        lo = 0
        segs = list(v.a[1])
        for k, s in enumerate(segs):
            if eval_cmp(st, 'eq', at, lo, 64) is True:
                return segs[:k], segs[k:]
            if s.tag == 'any':
                break
            hi = plus1(lo) if s.tag == 'one' else lin_add(lo, lin_add(s.a[2], s.a[1], -1))
            if hi is None:
                break
            if s.tag == 'sl' and eval_cmp(st, 'sge', at, lo, 64) is True and (eval_cmp(st, 'sle', at, hi, 64) is True or k == len(segs) - 1):
                mid = lin_add(s.a[1], lin_add(at, lo, -1))
                return segs[:k] + [mk('sl', s.a[0], s.a[1], mid)], [mk('sl', s.a[0], mid, s.a[2])] + segs[k + 1:]
            lo = hi
        a = [S.Joiner(st, st, ('wk',), False).any(segs, ('wk',))]
        return a, a

    # vectors of bytes are treated like strings
    def do_bytes(self, st, f, args, i):
        m, a = f.meth, f.args
        this = args[0]
        p = st.resolve(this)

        def get(q):
            return self.getobj(st, q, 24, 'S', lambda: mkS(self.fresh(st, 'bytes'), frozenset(('?',))))

        def put(q, v):
            self.I.store(st, q, 24, v)
        if m == 'vector':
            al = split_args(a)
            if not al or al == ['']:
                v = lit(b'')
            elif al[0].startswith('initializer_list'):
                q, k = st.resolve(args[1]), None
                if isP(q) and q.a[0].tag in ('a', 'h') and len(args) < 4 and not ('t' in i['a'][1] and len(args) > 2 and i['a'][2]['t'] == 'i64'):
                    # passed by reference
                    b = self.I.load(st, q, 8, 64)[0][1]
                    k = self.I.load(st, self.I.padd(st, q, 8), 8, 64)[0][1]
                    q = b
                else:
                    k = st.resolve(args[2])
                k = st.resolve(k)
                q = st.resolve(q)
                if isinstance(k, int) and k <= 64 and isP(q):
                    xs = []
                    for x in range(k):
                        xs.append(st.resolve(self.I.load(st, self.I.padd(st, q, x), 1, 8)[0][1]))
                    v = mk('S', mk('bytes', tuple(xs)), k, frozenset())
                else:
                    v = mkS(self.fresh(st, 'bytes'))
            elif al[0].startswith('size_t'):
                k = st.resolve(args[1])
                v = mkS(mk('app', 'zeros', k), n=k)
            elif al[0].startswith('vector<'):
                v = get(args[1])
            else:
                v = mkS(self.fresh(st, 'bytes'), frozenset(('?',)))
            put(this, v)
            return self.ret(st)
        if m.startswith('~'):
            return self.ret(st)
        if not isP(p):
            return self.havoc(st, f, args, i)
        s = get(this)
        d = lambda k: P(mk('sd', p.a[0], p.a[1], 24), k)
        if m == 'size':
            return self.ret(st, s.a[1])
        if m == 'empty':
            return self.ret(st, self.I.icmp(st, 'eq', s.a[1], 0, 64))
        if m in ('data', 'begin', 'cbegin', 'front'):
            return self.ret(st, d(0))
        if m in ('end', 'cend'):
            return self.ret(st, d(s.a[1]))
        if m in ('operator[]', 'at'):
            idx = st.resolve(args[1])
            self.I.mon.index(st, 'bytes', s, idx)
            return self.ret(st, d(idx))
        if m == 'resize':
            k = st.resolve(args[1])
            self.I.mon.resize(st, s, k)
            put(this, mk('S', mk('app', 'resize', s.a[0], k), k, s.a[2]))
            return self.ret(st)
        if m in ('reserve', 'shrink_to_fit'):
            return self.ret(st)
        if m == 'clear':
            put(this, lit(b''))
            return self.ret(st)
        if m == 'push_back':
            x = st.resolve(self.I.load(st, args[1], 1, 8)[0][1])
            if s.a[0].tag in ('bytes', 'lit') and isinstance(s.a[1], int) and s.a[1] < 64:
                xs = s.a[0].a[0] if s.a[0].tag == 'bytes' else tuple(sgn(c, 8) for c in s.a[0].a[0])
                put(this, mk('S', mk('bytes', xs + (x,)), s.a[1] + 1, s.a[2]))
            else:
                put(this, mk('S', self.fresh(st, 'pb'), plus1(s.a[1]), s.a[2]))
            return self.ret(st)
        if m in ('operator=', 'swap', 'assign') and 'vector' in a:
            w = get(args[1])
            put(this, w)
            if m == 'swap':
                put(args[1], s)
            return self.ret(st, this)
        put(this, mkS(self.fresh(st, 'bytes'), s.a[2] | frozenset(('?',))))
        return self.havoc(st, f, args[1:], dict(i, a=i['a'][1:]))

    # ------------------------------------------------------------ std::unordered_map
    def do_map(self, st, f, args, i):
        m, a = f.meth, f.args
        ta = tmpl_args(f.cls)
        vt = ta[1] if len(ta) > 1 else ''
        this = args[0]
        if m in ('unordered_map', 'map'):
            if a and 'map<' in a.split(',')[0] or a.startswith('unordered_map<'):
                v = self.gm(st, args[1])
                if a.endswith('&&'):
                    self.I.store(st, args[1], 56, mk('map', 0, (), frozenset(), 0))
            else:
                v = mk('map', 0, (), frozenset(), 0)
            self.I.store(st, this, 56, v)
            return self.ret(st)
        if m.startswith('~'):
            return self.ret(st)
        v = self.gm(st, this)
        p = st.resolve(this)
        if not isP(p):
            return self.havoc(st, f, args, i)
        l = self.loc(p)
        end = P(mk('el', l, v.a[3], 'm'), 0)
        if m in ('begin', 'cbegin'):
            return self.ret(st, P(mk('el', l, 0, 'm'), 0))
        if m in ('end', 'cend'):
            return self.ret(st, end)
        if m == 'size':
            return self.ret(st, v.a[3])
        if m == 'empty':
            e = eval_cmp(st, 'eq', v.a[3], 0, 64)
            return self.ret(st, int(e) if e is not None else mk('op', 'icmp', 'eq', v.a[3], 0, 64))
        if m == 'clear':
            self.I.store(st, this, 56, mk('map', 0, (), frozenset(), 0))
            return self.ret(st)
        if m == 'operator=':
            self.I.store(st, this, 56, self.gm(st, args[1]))
            return self.ret(st, this)
        if m in ('find', 'count', 'at'):
            key = self.gs(st, args[1])
            outs = []
            for s2, found in self.lookup(st, l, v, key, vt):
                if m == 'count':
                    outs.append(('ret', s2, 1 if found else 0))
                elif found:
                    outs.append(('ret', s2, P(mk('el', l, mk('k', key.a[0]), 'm'), 32 if m == 'at' else 0)))
                elif m == 'at':
                    outs += self.I.throw(s2, RANGE)
                else:
                    outs.append(('ret', s2, end))
            return outs
        if m == 'operator[]':
            key = self.gs(st, args[1])
            outs = []
            for s2, found in self.lookup(st, l, v, key, vt):
                if not found:
                    self.insert(s2, l, this, key, vt, None)
                outs.append(('ret', s2, P(mk('el', l, mk('k', key.a[0]), 'm'), 32)))
            return outs
        if m in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
            outs = []
            key = self.gs(st, args[1])
            for s2, found in self.lookup(st, l, v, key, vt):
                if not found:
                    src = st.resolve(args[2]) if len(args) > 2 else self.I.padd(st, st.resolve(args[1]), 32)
                    self.insert(s2, l, this, key, vt, src)
                outs.append(('ret', s2, mk('agg', (P(mk('el', l, mk('k', key.a[0]), 'm'), 0), 0 if found else 1))))
            return outs
        if m == 'erase':
            q = self.itval(st, args[1])
            if isP(q) and q.a[0].tag == 'el' and q.a[0].a[0] is l:
                k = q.a[0].a[1]
                d = dict(v.a[1])
                d.pop(k, None)
                self.I.store(st, this, 56, mk('map', v.a[0], tuple(sorted(d.items(), key=lambda t: id(t[0]))), v.a[2], plus(v.a[3], -1)))
                return self.ret(st, P(mk('el', l, self.fresh(st, 'nx', NAT), 'm'), 0))
            k = self.gs(st, args[1]) if 'string' in a else None
            if k is not None:
                d = dict(v.a[1])
                d.pop(mk('k', k.a[0]), None)
                self.I.store(st, this, 56, mk('map', v.a[0], tuple(sorted(d.items(), key=lambda t: id(t[0]))), v.a[2], self.fresh(st, 'n', NAT)))
                return self.ret(st, self.fresh(st, 'cnt', R_set(0, 1)))
        return self.havoc(st, f, args, i)

    def lookup(self, st, l, v, key, vt):
        k = mk('k', key.a[0])
        d = dict(v.a[1])
        if k in d:
            return [(st, True)]
        if v.a[3] == 0 and isinstance(v.a[3], int):
            return [(st, False)]
        g = ('has', v.a[0] if isinstance(v.a[0], V) else 0, k)
        fact = mk('op', 'has', v.a[0], k, v.a[3], 1) if isinstance(v.a[0], V) else None
        if fact is not None:
            c = st.f.get(fact)
            if c == R_set(1):
                return [(st, True)]
            if c == R_set(0):
                return [(st, False)]
        s2 = st.copy()
        if fact is not None:
            st.f[fact] = R_set(1)
            s2.f[fact] = R_set(0)
        if not assume_cmp(st, 'ne', v.a[3], 0, 64):
            return [(s2, False)]
        if not isinstance(v.a[0], V):
            lb = v.a[2]
            for kk, c in v.a[1]:
                lb = lb | entry_labels(kk, c)
            cells = [(0, 32, key)]
            for off, z in layout(vt):
                cells.append((32 + off, z, mkS(self.fresh(st, ('mf', off)), lb) if z == 32 else self.fresh(st, ('mf', off), R_set(0, 1) if z == 1 else None)))
            d[k] = tuple(cells)
            self.I.store(st, self.unloc(l), 56, mk('map', v.a[0], tuple(sorted(d.items(), key=lambda t: id(t[0]))), v.a[2], v.a[3]))
        return [(st, True), (s2, False)]

    def insert(self, st, l, this, key, vt, src):
        v = self.gm(st, this)
        d = dict(v.a[1])
        if src is None:
            vals = tuple((32 + o, z, lit(b'') if z == 32 else mk('vec', 0, (), 0) if z == 24 else mk('map', 0, (), frozenset(), 0) if z == 56 else 0) for o, z in layout(vt))
        else:
            vals = tuple((32 + o, z, self.I.mon.mapvalue(st, l, key, x) if isinstance(x, V) and x.tag == 'S' else x) for o, z, x in self.fields(st, src, vt, esize(vt)))
        d[mk('k', key.a[0])] = ((0, 32, key),) + vals
        n = plus(v.a[3], 1)
        self.I.store(st, this, 56, mk('map', v.a[0], tuple(sorted(d.items(), key=lambda t: id(t[0]))), v.a[2], n))

    def do_nodeit(self, st, f, args, i):
        m = f.meth
        if m in ('operator->', 'operator*'):
            return self.ret(st, self.itval(st, args[0]))
        if m == 'operator++':
            v = self.itval(st, args[0])
            if isP(v) and v.a[0].tag == 'el' and not kpos2(v.a[0].a[1]):
                nv = P(mk('el', v.a[0].a[0], plus1(v.a[0].a[1]), 'm'), 0)
            elif isP(v) and v.a[0].tag == 'el':
                nv = P(mk('el', v.a[0].a[0], self.fresh(st, 'nx', NAT), 'm'), 0)
            else:
                return self.havoc(st, f, args, i)
            q = st.resolve(args[0])
            self.I.store(st, q, 8, nv)
            return self.ret(st, v if f.args == 'int' else q)
        if m.startswith('_Node_'):
            if len(args) > 1:
                x = st.resolve(args[1])
                if isP(x) and x.a[0].tag in ('a', 'h') and 'const&' in f.args:
                    x = self.itval(st, x)
                self.I.store(st, args[0], 8, x)
            return self.ret(st)
        return self.havoc(st, f, args, i)

    # ------------------------------------------------------------ std::shared_ptr
    def getsp(self, st, p):
        """Pointer held by the shared_ptr at p"""
        p = st.resolve(p)
        r = self.I.load(st, p, 8, 64)
        v = st.resolve(r[0][1])
        if isinstance(v, V) and v.tag == 's' and v.a[0] == ('lz',):
            return P(mk('bo', mk('f', v.a[1], v.a[2])), 0)
        return v

    def do_shared(self, st, f, args, i):
        m, a = f.meth, f.args
        if m.startswith('~'):
            return self.ret(st)
        if m in ('operator*', 'operator->', 'get', '_M_get'):
            return self.ret(st, self.getsp(st, args[0]))
        if m in ('shared_ptr', '__shared_ptr'):
            if 'shared_ptr<' in a:
                self.I.store(st, args[0], 8, self.getsp(st, args[1]))
            elif not a or 'nullptr' in a:
                self.I.store(st, args[0], 8, 0)
            else:
                self.I.store(st, args[0], 8, args[1])
            return self.ret(st)
        if m == 'operator=':
            v = self.getsp(st, args[1])
            self.I.store(st, args[0], 8, v)
            return self.ret(st, args[0])
        if m == 'reset':
            self.I.store(st, args[0], 8, args[1] if len(args) > 1 else 0)
            return self.ret(st)
        if m == 'operator bool':
            v = self.getsp(st, args[0])
            return self.ret(st, self.I.icmp(st, 'ne', v, 0, 64))
        return self.havoc(st, f, args, i)

    def do_make_shared(self, st, f, args, i):
        fn, c, _ = self.I.stack[-1]
        s = self.fresh(st, 'shared')
        o = mk('h', s)
        t = f.tmpl or ''
        st.m[o] = Obj({})
        for off, z in layout(f.tmpl):
            st.put(o, off, z, lit(b'') if z == 32 else mk('vec', 0, (), 0) if z == 24 else 0)
        self.I.store(st, args[0], 8, P(o, 0))
        return self.ret(st)

    # ------------------------------------------------------------ streams
    def do_stream(self, st, f, args, i):
        m = f.meth
        p = st.resolve(args[0]) if args else None
        if m == 'eof' and isP(p):
            o = P(mk('sp', ('eof', p.a[0], p.a[1])), 0)
            v = st.get(o.a[0], 0)
            return self.ret(st, v[1] if v else 0)
        if m == 'setstate' and isP(p):
            o = mk('sp', ('eof', p.a[0], p.a[1]))
            b = st.resolve(args[1])
            if isinstance(b, int) and b & 2:
                st.put(o, 0, 1, 1)
            return self.ret(st)
        if m == 'clear' and isP(p):
            st.put(mk('sp', ('eof', p.a[0], p.a[1])), 0, 1, 0)
            return self.ret(st)
        if m in ('operator<<', 'flush', 'write', 'put'):
            if m != 'flush':
                self.I.mon.stream(st, p, args[1:])
            return self.ret(st, args[0])
        if i['a'] and i['a'][0].get('sret') == 32:
            st = self.ps(st, args[0], mkS(self.fresh(st, 'ss')))
            return self.ret(st)
        if 'd' in i:
            return self.ret(st, self.fresh(st, 'strm', width_range(i['w']) if i.get('w', 64) < 64 else None))
        return self.ret(st)

    # ------------------------------------------------------------ system calls
    def errno(self, st, rng=None):
        e = self.fresh(st, 'errno', rng or R_iv(1, 133))
        st.put(ERRNO.a[0], 0, 4, e)
        return e

    def split(self, st, v):
        """States in which v is a definite atom (descriptor, pid, constant)."""
        v = st.resolve(v)
        if isinstance(v, V) and v.tag == 's':
            r = st.range(v)
            if r[0] == 'set' and 1 < len(r[1]) <= 8 and not any(isinstance(x, V) and x.tag == 's' for x in r[1]):
                out = []
                for x in sorted(r[1], key=repr):
                    s2 = st.copy()
                    s2.f[v] = R_set(x)
                    out.append((s2, x))
                return out
        return [(st, v)]


SPECIALTAGS = frozenset(('el', 'sd', 'cs', 'argv', 'bo'))


def plus(p, k):
    r = lin_add(p, k)
    return r if r is not None else mk('nx', p, k)


def split_args(a):
    out = []
    d = 0
    cur = ''
    for c in a:
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


LIBC = {}


def libc(*names):
    def deco(fn):
        for n in names:
            LIBC[n] = fn
        return fn
    return deco


import libc as _libc  # noqa: E402,F401  (registers the handlers)
