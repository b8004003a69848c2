"""Abstract values: hash-consed terms, ranges and arithmetic.

A value is a Python int (signed canonical form of its width; pointers: 0 is null) or a V.
"""

class V:
    __slots__ = ('tag', 'a', '_s', '_k', '__weakref__')
    _tab = {}

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (mk, (self.tag,) + self.a)


def mk(tag, *a):
    k = (tag, a)
    v = V._tab.get(k)
    if v is None:
        v = V()
        v.tag = tag
        v.a = a
        v._s = None
        v._k = None
        V._tab[k] = v
    return v


_NOSYMS = frozenset()


def syms(v):
    """All symbols occurring in a value (or tuple of values)."""
    if isinstance(v, V):
        s = v._s
        if s is None:
            if v.tag == 's':
                s = frozenset((v,)) | syms(v.a)
            else:
                s = syms(v.a)
            v._s = s
        return s
    if isinstance(v, (tuple, frozenset)):
        r = _NOSYMS
        for x in v:
            if isinstance(x, (V, tuple, frozenset)):
                t = syms(x)
                if t:
                    r = r | t
        return r
    return _NOSYMS


def show(v, d=0):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return '(' + ','.join(show(x, d + 1) for x in v) + ')'
        if isinstance(v, frozenset):
            return '{' + ','.join(sorted(show(x, d + 1) for x in v)) + '}'
        return repr(v)
    if d > 6:
        return '..'
    if v.tag == 'lin':
        return '+'.join(['%s%s' % ('' if c == 1 else '%d*' % c, show(s, d + 1)) for s, c in v.a[0]] + ([str(v.a[1])] if v.a[1] else []))
    return v.tag + '(' + ','.join(show(x, d + 1) for x in v.a) + ')'


def sym(*key):
    return mk('s', *key)


def P(obj, off=0):
    return mk('P', obj, off)


def isP(v):
    return isinstance(v, V) and v.tag == 'P'


def F(name):
    return mk('F', name)


def sgn(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if w > 1 and x >> (w - 1) else x


def uns(x, w):
    return x & ((1 << w) - 1)


INT_ATOM_TAGS = ('s', 'lin', 'op', 'fd', 'pid')


def lin_parts(v):
    """(terms tuple, const) of a linear value or None"""
    if isinstance(v, int):
        return (), v
    if v.tag == 'lin':
        return v.a
    if v.tag in ('s', 'op', 'fd', 'pid'):
        return ((v, 1),), 0
    return None


def lin_make(terms, c):
    terms = tuple(sorted(((s, k) for s, k in terms if k), key=lambda t: id(t[0])))
    if not terms:
        return c
    if c == 0 and len(terms) == 1 and terms[0][1] == 1:
        return terms[0][0]
    return mk('lin', terms, c)


def lin_add(a, b, kb=1):
    pa, pb = lin_parts(a), lin_parts(b)
    if pa is None or pb is None:
        return None
    d = dict(pa[0])
    for s, k in pb[0]:
        d[s] = d.get(s, 0) + kb * k
    return lin_make(d.items(), pa[1] + kb * pb[1])


# ---------------------------------------------------------------- ranges
# A range is ('set', frozenset) or ('iv', lo, hi, ne) with lo/hi None for unbounded, ne: excluded atoms
TOP = ('iv', None, None, frozenset())
MAXSET = 8


def R_set(*xs):
    return ('set', frozenset(xs))


def R_iv(lo, hi, ne=frozenset()):
    if lo is not None and hi is not None:
        if lo > hi:
            return ('set', frozenset())
        while lo in ne:
            lo += 1
        while hi in ne and hi > lo:
            hi -= 1
        if hi - lo < 4:
            return ('set', frozenset(x for x in range(lo, hi + 1) if x not in ne))
        ne = frozenset(x for x in ne if not isinstance(x, int) or lo < x < hi)
    return ('iv', lo, hi, ne)


def width_range(w):
    if w == 1:
        return R_set(0, 1)
    return ('iv', -(1 << (w - 1)), (1 << (w - 1)) - 1, frozenset())


def fd_iv(x):
    return (3, (1 << 31) - 1) if x.tag == 'fd' else (2, (1 << 31) - 1)


def r_bounds(r):
    if r[0] == 'iv':
        return r[1], r[2]
    lo = hi = None
    for x in r[1]:
        if isinstance(x, int):
            l, h = x, x
        elif isinstance(x, V) and x.tag in ('fd', 'pid'):
            l, h = fd_iv(x)
        else:
            return None, None
        lo = l if lo is None or l < lo else lo
        hi = h if hi is None or h > hi else hi
    return lo, hi


def r_union(a, b):
    if a == b:
        return a
    if a[0] == 'set' and b[0] == 'set':
        s = a[1] | b[1]
        if len(s) <= MAXSET:
            return ('set', s)
    if a[0] == 'set' and not a[1]:
        return b
    if b[0] == 'set' and not b[1]:
        return a
    (la, ha), (lb, hb) = r_bounds(a), r_bounds(b)
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    ea = a[3] if a[0] == 'iv' else None
    eb = b[3] if b[0] == 'iv' else None
    # excluded atoms must be excluded from both
    cand = (ea or frozenset()) | (eb or frozenset())
    ne = frozenset(x for x in cand | ({0} if (a[0] == 'set') != (b[0] == 'set') else set()) if not r_contains(a, x) and not r_contains(b, x))
    return R_iv(lo, hi, ne)


def r_contains(r, x):
    if r[0] == 'set':
        if x in r[1]:
            return True
        if isinstance(x, int):
            return any(isinstance(y, V) and (y.tag not in ('fd', 'pid', 'P', 'F') or (y.tag in ('fd', 'pid') and fd_iv(y)[0] <= x)) for y in r[1])
        return any(isinstance(y, int) for y in r[1]) and isinstance(x, V) and x.tag in ('fd', 'pid') and any(isinstance(y, int) and y >= 3 for y in r[1])
    if x in r[3]:
        return False
    if isinstance(x, int):
        return (r[1] is None or r[1] <= x) and (r[2] is None or x <= r[2])
    return True


def r_meet(a, b):
    if a == b:
        return a
    if a[0] == 'set' and b[0] == 'set':
        out = a[1] & b[1]
        for x in a[1] ^ b[1]:
            if isinstance(x, V):
                other = b if x in a[1] else a
                if any(isinstance(y, V) and y.tag not in ('fd', 'pid', 'P', 'F') for y in other[1]):
                    out = out | {x}
        return ('set', out)
    if b[0] == 'set':
        a, b = b, a
    if a[0] == 'set':
        out = []
        for x in a[1]:
            if isinstance(x, int):
                if r_contains(b, x):
                    out.append(x)
            else:
                if x in b[3]:
                    continue
                if x.tag in ('fd', 'pid'):
                    lo, hi = fd_iv(x)
                    if (b[2] is not None and b[2] < lo) or (b[1] is not None and b[1] > hi):
                        continue
                if x.tag in ('P', 'F') and (b[1] is not None or b[2] is not None) and b[1] == b[2] == 0:
                    continue
                out.append(x)
        return ('set', frozenset(out))
    lo = a[1] if b[1] is None else b[1] if a[1] is None else max(a[1], b[1])
    hi = a[2] if b[2] is None else b[2] if a[2] is None else min(a[2], b[2])
    return R_iv(lo, hi, a[3] | b[3])


def r_empty(r):
    return r[0] == 'set' and not r[1]


def r_add(a, b):
    if a[0] == 'set' and b[0] == 'set' and all(isinstance(x, int) for x in a[1] | b[1]) and len(a[1]) * len(b[1]) <= 16:
        s = frozenset(x + y for x in a[1] for y in b[1])
        if len(s) <= MAXSET:
            return ('set', s)
    (la, ha), (lb, hb) = r_bounds(a), r_bounds(b)
    return R_iv(None if la is None or lb is None else la + lb, None if ha is None or hb is None else ha + hb)


def r_scale(a, k):
    if k == 1:
        return a
    if a[0] == 'set' and all(isinstance(x, int) for x in a[1]):
        return ('set', frozenset(x * k for x in a[1]))
    lo, hi = r_bounds(a)
    if k < 0:
        lo, hi = hi, lo
    return R_iv(None if lo is None else lo * k, None if hi is None else hi * k)


def r_widen(old, new):
    """new is the union; unstable bounds go to infinity (with a few thresholds)."""
    if old == new:
        return new
    lo, hi = r_bounds(new)
    ol, oh = r_bounds(old)
    ne = new[3] if new[0] == 'iv' else frozenset()
    if new[0] == 'set' and any(not isinstance(x, int) for x in new[1]):
        return new if len(new[1]) <= MAXSET else TOP
    if lo is not None and (ol is None or lo < ol):
        lo = next((t for t in (0, -1) if t <= lo), None)
    if hi is not None and (oh is None or hi > oh):
        hi = next((t for t in (255, 65535, (1 << 31) - 1) if t >= hi), None)
    return R_iv(lo, hi, ne)
