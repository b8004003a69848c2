"""Abstract states: memory, facts, ghost state; substitution and joins."""
from val import *


class Obj:
    """An immutable memory object: cells {off: (size, value)} and blobs {off: (size, origin)}."""
    __slots__ = ('c', 'b', '_s', '_t')

    def __init__(self, c, b=None):
        self.c = c
        self.b = b
        self._s = None
        self._t = None

    def syms(self):
        if self._s is None:
            r = set()
            for off, (n, v) in self.c.items():
                if isinstance(off, V):
                    r |= syms(off)
                if isinstance(v, V):
                    r |= syms(v)
            if self.b:
                for off, (n, v) in self.b.items():
                    if isinstance(v, V):
                        r |= syms(v)
            self._s = frozenset(r)
        return self._s

    def sites(self):
        if self._t is None:
            self._t = frozenset(s.a[0] for s in self.syms())
        return self._t


EMPTY = Obj({})
_ks = {}


def keysites(k):
    r = k._k
    if r is None:
        r = k._k = frozenset(s.a[0] for s in syms(k))
    return r


LN = ('ln',)      # site of string and container lengths
BL = ('bl',)      # site of unknown booleans
NAT = ('iv', 0, None, frozenset())
BOOLR = R_set(0, 1)


class Infeasible(Exception):
    pass


class State:
    __slots__ = ('m', 'f', 'g', 'r', 'tr', 'sx')

    def __init__(self):
        self.sx = set()      # sites that may occur in the state
        self.m = {}
        self.f = {}
        self.g = {}
        self.r = {}
        self.tr = None

    def copy(self):
        s = State.__new__(State)
        s.m = dict(self.m)
        s.f = dict(self.f)
        s.g = dict(self.g)
        s.r = dict(self.r)
        s.tr = self.tr
        s.sx = set(self.sx)
        return s

    # -------------------------------------------------------------- memory cells
    def put(self, obj, off, size, v):
        o = self.m.get(obj)
        if o is None:
            self.m[obj] = Obj({off: (size, v)})
            return
        c = o.c
        old = c.get(off)
        if old is not None and old[0] == size:
            if old[1] is v:
                return
            c = dict(c)
            c[off] = (size, v)
        else:
            c = dict(c)
            if isinstance(off, int):
                for k in [k for k, (n, _) in c.items() if not isinstance(k, int) or (k < off + size and off < k + n)]:
                    if k != off:
                        self._split(c, k, off, size)
            c[off] = (size, v)
        self.m[obj] = Obj(c, o.b)

    @staticmethod
    def _split(c, k, off, size):
        n, v = c.pop(k)
        if isinstance(k, int) and isinstance(v, int) and n <= 8:
            for i in range(n):
                if not off <= k + i < off + size:
                    c[k + i] = (1, sgn(v >> (8 * i), 8))

    def get(self, obj, off):
        o = self.m.get(obj)
        if o is None:
            return None
        return o.c.get(off)

    def setblob(self, obj, off, size, origin):
        o = self.m.get(obj, EMPTY)
        c = {k: x for k, x in o.c.items() if isinstance(k, int) and not (off <= k < off + size)}
        b = {k: x for k, x in (o.b or {}).items() if not (off <= k and k + x[0] <= off + size)}
        b[off] = (size, origin)
        self.m[obj] = Obj(c, b)

    def drop(self, obj):
        self.m.pop(obj, None)

    # -------------------------------------------------------------- substitution
    def has_site(self, site):
        if site not in self.sx:
            return False
        for k, o in self.m.items():
            if site in (o._t or o.sites()) or site in (k._k or keysites(k)):
                return True
        for k, v in self.g.items():
            if isinstance(v, (V, tuple, frozenset)) and any(s.a[0] == site for s in syms(v)):
                return True
        for v in self.r.values():
            if isinstance(v, V) and any(s.a[0] == site for s in syms(v)):
                return True
        return False

    def sites(self):
        r = set()
        for k, o in self.m.items():
            r |= o.sites()
            r |= keysites(k)
        for v in self.g.values():
            if isinstance(v, (V, tuple, frozenset)):
                for s in syms(v):
                    r.add(s.a[0])
        for v in self.r.values():
            if isinstance(v, V):
                for s in syms(v):
                    r.add(s.a[0])
        return r

    def retire(self, site):
        """Renames all symbols created at `site`, which is about to create new ones of the same names."""
        if site not in self.sx:
            return
        if not self.has_site(site):
            # facts about dead symbols must not survive either
            self.sx.discard(site)
            for k in [k for k in self.f if any(s.a[0] == site for s in syms(k))]:
                del self.f[k]
            return
        base = site[2] if site[0] == 'o' else site
        n = 1 if site[0] != 'o' else site[1] + 1
        new = ('o', n, base)
        if n >= 3:
            new = ('o', 3, base)
            if n > 3:
                # too many generations: forget
                self._forget(site)
                return
        if self.has_site(new):
            self.retire(new)
        self.subst_site(site, new)

    def subst_site(self, site, new):
        memo = {}
        self.sx.discard(site)
        self.sx.add(new)

        def sub(v):
            if isinstance(v, V):
                if not any(s.a[0] == site for s in syms(v)):
                    return v
                r = memo.get(v)
                if r is None:
                    if v.tag == 's':
                        r = mk('s', new if v.a[0] == site else v.a[0], *[sub(x) for x in v.a[1:]])
                    elif v.tag == 'lin':
                        r = lin_make([(sub(t), k) for t, k in v.a[0]], v.a[1])
                    else:
                        r = mk(v.tag, *[sub(x) for x in v.a])
                    memo[v] = r
                return r
            if isinstance(v, tuple):
                return tuple([sub(x) for x in v])
            if isinstance(v, frozenset):
                return frozenset([sub(x) for x in v])
            return v
        self.map(sub, lambda o, k: site in o.sites() or site in keysites(k), lambda v: any(s.a[0] == site for s in syms(v)))

    def map(self, sub, objsel, vsel):
        for k in [k for k, o in self.m.items() if objsel(o, k)]:
            o = self.m.pop(k)
            self.m[sub(k)] = Obj({sub(a): (n, sub(v)) for a, (n, v) in o.c.items()}, {a: (n, sub(v)) for a, (n, v) in o.b.items()} if o.b else None)
        for k in [k for k in self.f if vsel(k)]:
            r = self.f.pop(k)
            k2 = sub(k)
            if k2.tag == 'lin':
                k2, sgnm = norm_key(k2)
                if sgnm < 0:
                    r = r_scale(r, -1)
            self.f[k2] = r if r[0] != 'set' else ('set', frozenset(sub(x) for x in r[1]))
        for k, r in list(self.f.items()):
            if r[0] == 'set' and any(isinstance(x, V) and vsel(x) for x in r[1]):
                self.f[k] = ('set', frozenset(sub(x) for x in r[1]))
        for k, v in list(self.g.items()):
            if isinstance(v, (V, tuple, frozenset)) and vsel(v):
                self.g[k] = sub(v)
        for k, v in list(self.r.items()):
            if isinstance(v, V) and vsel(v):
                self.r[k] = sub(v)

    def _forget(self, site):
        self.sx.discard(site)
        for k in [k for k, o in self.m.items() if site in keysites(k)]:
            del self.m[k]
        n = [0]

        def sub(v):
            if isinstance(v, V) and any(s.a[0] == site for s in syms(v)):
                if v.tag == 'S':
                    return mk('S', sub(v.a[0]), sub(v.a[1]), v.a[2])
                if v.tag in ('P', 'it', 'el', 'sd', 'vd', 'vec', 'map', 'one', 'sl', 'any', 'cs'):
                    return mk(v.tag, *[sub(x) for x in v.a])
                n[0] += 1
                return mk('s', ('gone', n[0]))
            if isinstance(v, tuple):
                return tuple([sub(x) for x in v])
            if isinstance(v, frozenset):
                return frozenset([sub(x) for x in v])
            return v
        self.map(sub, lambda o, k: site in o.sites(), lambda v: any(s.a[0] == site for s in syms(v)))
        for k in [k for k in self.f if any(s.a[0] == site for s in syms(k))]:
            del self.f[k]

    def fresh(self, site, *name, rng=None):
        """A new symbol for the value produced at site now."""
        self.retire(site)
        s = mk('s', site, *name)
        self.sx.add(site)
        if rng is not None:
            self.f[s] = rng
        return s

    # -------------------------------------------------------------- ranges
    def range(self, v, depth=0):
        if isinstance(v, int):
            return ('set', frozenset((v,)))
        t = v.tag
        if t == 's':
            r = self.f.get(v)
            if r is not None:
                return r
            return NAT if v.a[0] is LN or v.a[0] == LN else BOOLR if v.a[0] == BL else TOP
        if t == 'lin':
            r = ('set', frozenset((v.a[1],)))
            for s, k in v.a[0]:
                r = r_add(r, r_scale(self.range(s, depth + 1), k))
            if len(v.a[0]) > 1:
                nk, sg = norm_key(v)
                fr = self.f.get(nk)
                if fr is not None:
                    r = r_meet(r, r_add(r_scale(fr, sg), ('set', frozenset((v.a[1],)))))
                elif depth == 0 and len(v.a[0]) <= 4:
                    r = self._closure(v, r)
            return r
        if t == 'op':
            r = self._oprange(v)
            fr = self.f.get(v)
            return r if fr is None else r_meet(r, fr)
        if t in ('fd', 'pid', 'P', 'F', 'it', 'agg', 'cs') or True:
            fr = self.f.get(v)
            return fr if fr is not None else ('set', frozenset((v,)))

    def _closure(self, v, r):
        """Improves the range of a sum using pairs of known facts about differences."""
        terms = dict(v.a[0])
        lo, hi = r_bounds(r)
        for k, fr in self.f.items():
            if isinstance(k, V) and k.tag == 'lin':
                kt = dict(k.a[0])
                for sg in (1, -1):
                    # v - sg*k should get simpler
                    rest = dict(terms)
                    for s, c in kt.items():
                        rest[s] = rest.get(s, 0) - sg * c
                    rest = [(s, c) for s, c in rest.items() if c]
                    if len(rest) >= len(terms) + 1:
                        continue
                    rv = lin_make(rest, v.a[1])
                    rr = r_add(self.range(rv, 1), r_scale(fr, sg))
                    l2, h2 = r_bounds(rr)
                    if l2 is not None and (lo is None or l2 > lo):
                        lo = l2
                    if h2 is not None and (hi is None or h2 < hi):
                        hi = h2
        return r_meet(r, R_iv(lo, hi)) if lo is not None or hi is not None else r

    def _oprange(self, v):
        op = v.a[0]
        if op == 'icmp':
            e = eval_cmp(self, v.a[1], v.a[2], v.a[3], v.a[4])
            return R_set(0, 1) if e is None else R_set(1 if e else 0)
        if op == 'not':
            r = self.range(v.a[1])
            if r == R_set(0):
                return R_set(1)
            if r == R_set(1):
                return R_set(0)
            return R_set(0, 1)
        if op == 'and':
            r = self.range(v.a[1])
            m = v.a[2]
            if isinstance(m, int):
                if r[0] == 'set' and all(isinstance(x, int) for x in r[1]):
                    return ('set', frozenset(x & m for x in r[1]))
                if m >= 0:
                    return R_iv(0, m)
        if op == 'zext':
            w = v.a[2]
            r = self.range(v.a[1])
            lo, hi = r_bounds(r)
            if lo is not None and lo >= 0:
                return r
            return R_iv(0, (1 << w) - 1)
        if op == 'trunc':
            w = v.a[2]
            r = self.range(v.a[1])
            lo, hi = r_bounds(r)
            wr = width_range(w)
            if w > 1 and lo is not None and hi is not None and lo >= wr[1] and hi <= wr[2]:
                return r
            return wr
        if op in ('ashr', 'lshr') and isinstance(v.a[2], int):
            lo, hi = r_bounds(self.range(v.a[1]))
            k = v.a[2]
            if lo is not None and hi is not None and (op == 'ashr' or lo >= 0):
                return R_iv(lo >> k, hi >> k)
            if op == 'lshr' and k:
                return R_iv(0, (1 << (v.a[3] - k)) - 1)
        if op == 'shl' and isinstance(v.a[2], int):
            lo, hi = r_bounds(self.range(v.a[1]))
            if lo is not None and hi is not None and lo >= 0 and (hi << v.a[2]) < 1 << (v.a[3] - 1):
                return R_iv(lo << v.a[2], hi << v.a[2])
        if op == 'or':
            la, ha = r_bounds(self.range(v.a[1]))
            lb, hb = r_bounds(self.range(v.a[2]))
            if la is not None and lb is not None and la >= 0 and lb >= 0 and ha is not None and hb is not None:
                n = max(ha.bit_length(), hb.bit_length())
                return R_iv(max(la, lb), (1 << n) - 1)
        if op == 'add' or op == 'sub' or op == 'mul':
            (la, ha), (lb, hb) = r_bounds(self.range(v.a[1])), r_bounds(self.range(v.a[2]))
            if None not in (la, ha, lb, hb):
                if op == 'add':
                    lo, hi = la + lb, ha + hb
                elif op == 'sub':
                    lo, hi = la - hb, ha - lb
                else:
                    c = [la * lb, la * hb, ha * lb, ha * hb]
                    lo, hi = min(c), max(c)
                wr = width_range(v.a[3])
                if wr[0] == 'iv' and lo >= wr[1] and hi <= wr[2]:
                    return R_iv(lo, hi)
        if op in ('streq', 'bool'):
            return R_set(0, 1)
        if op == 'bitcat':
            bits = v.a[1]
            n = len(bits)
            while n and bits[n - 1] == 0 and isinstance(bits[n - 1], int):
                n -= 1
            if n == 0:
                return R_set(0)
            if n < len(bits):
                x = bits[0]
                if isinstance(x, V) and isinstance(x.a[0], V):
                    o = x.a[1]
                    if all(isinstance(b, V) and b.a[0] is x.a[0] and b.a[1] == o + k for k, b in enumerate(bits[:n])):
                        lo, hi = r_bounds(self.range(x.a[0]))
                        if lo is not None and hi is not None and lo >= 0 and hi < 1 << (n + o):
                            return R_iv(lo >> o, hi >> o) if o else self.range(x.a[0])
                return R_iv(0, (1 << n) - 1)
        if op == 'urem' and isinstance(v.a[2], int) and v.a[2] > 0:
            return R_iv(0, v.a[2] - 1)
        w = v.a[-1]
        return width_range(w) if isinstance(w, int) and w in (1, 8, 16, 32) else TOP

    def const(self, v):
        """The single value v is known to have, or None."""
        if isinstance(v, int):
            return v
        r = self.range(v)
        if r[0] == 'set' and len(r[1]) == 1:
            return next(iter(r[1]))
        return None

    def resolve(self, v):
        c = self.const(v) if isinstance(v, V) and v.tag in ('s', 'lin', 'op') else None
        return v if c is None else c

    # -------------------------------------------------------------- assumptions
    def meet(self, v, r):
        """Restricts v (sym/op) to r; False if infeasible."""
        if isinstance(v, int):
            return r_contains(r, v)
        if v.tag == 'lin':
            if len(v.a[0]) == 1:
                s, k = v.a[0][0]
                if k in (1, -1):
                    return self.meet(s, r_scale(r_add(r, ('set', frozenset((-v.a[1],)))), k))
                return True
            nk, sg = norm_key(v)
            cur = self.f.get(nk, TOP)
            n = r_meet(cur, r_scale(r_add(r, ('set', frozenset((-v.a[1],)))), sg))
            if r_empty(n):
                return False
            self.f[nk] = n
            return not r_empty(r_meet(self.range(v), r))
        if v.tag not in ('s', 'op'):
            return not r_empty(r_meet(self.range(v), r))
        n = r_meet(self.range(v), r)
        if r_empty(n):
            return False
        self.f[v] = n
        if v.tag == 'op':
            op = v.a[0]
            if op == 'zext':
                lo, hi = r_bounds(n)
                w = v.a[2]
                if hi is not None and lo is not None and hi < 1 << (w - 1):
                    return self.meet(v.a[1], n)
                if lo is not None and lo >= 1 << (w - 1):
                    return self.meet(v.a[1], R_iv(lo - (1 << w), hi - (1 << w) if hi is not None else -1))
            elif op == 'trunc' and v.a[2] == 1:
                pass
        return True


def norm_key(v):
    """lin value -> (constant-free key with positive first coefficient, sign)"""
    t = v.a[0]
    sg = 1 if t[0][1] > 0 else -1
    k = lin_make([(s, c * sg) for s, c in t], 0)
    return k, sg


INV = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def _cint(p, a, b, w):
    if p[0] == 'u':
        a, b = uns(a, w), uns(b, w)
        p = 's' + p[1:]
    return {'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[p]


def atom_eq(st, a, b):
    """True/False/None: equality of two non-symbolic atoms"""
    if a is b or a == b:
        return True
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if isinstance(a, int):
            return False
        if a.tag in ('P', 'F', 'it', 'exc', 'ti'):
            return False if b == 0 or a.tag == 'F' else None
        if a.tag in ('fd', 'pid'):
            lo, hi = fd_iv(a)
            return None if lo <= b <= hi else False
        return None
    if a.tag != b.tag:
        return None
    if a.tag == 'P':
        if a.a[0] is b.a[0]:
            d = lin_add(a.a[1], b.a[1], -1)
            if d is None:
                return None
            if isinstance(d, int):
                return d == 0
            r = st.range(d)
            return None if r_contains(r, 0) else False
        if a.a[0].tag in ('a', 'g', 'h') and b.a[0].tag in ('a', 'g', 'h'):
            return False
        return None
    if a.tag in ('F', 'ti', 'exc'):
        return False
    return None


def eval_cmp(st, p, a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return _cint(p, a, b, w)
    if p in ('eq', 'ne'):
        ra, rb = st.range(a), st.range(b)
        if a is b:
            return p == 'eq'
        if ra[0] == 'set' and rb[0] == 'set':
            res = set()
            for x in ra[1]:
                for y in rb[1]:
                    res.add(atom_eq(st, x, y))
            if res == {True}:
                return p == 'eq'
            if res == {False}:
                return p == 'ne'
            if not res:
                return None
        if r_empty(r_meet(ra, rb)) and all(isinstance(x, int) or x.tag in ('P', 'F', 'fd', 'pid') for r in (ra, rb) if r[0] == 'set' for x in r[1]):
            # disjoint; sets of symbolic atoms that may alias are handled above
            if not (ra[0] == 'set' and rb[0] == 'set'):
                return p == 'ne'
        d = lin_add(a, b, -1) if (isinstance(a, int) or a.tag in ('s', 'lin', 'op')) and (isinstance(b, int) or b.tag in ('s', 'lin', 'op')) else None
        if d is not None:
            r = st.range(d) if isinstance(d, V) else ('set', frozenset((d,)))
            if not r_contains(r, 0):
                return p == 'ne'
            if r == ('set', frozenset((0,))):
                return p == 'eq'
        return None
    if p[0] == 'u':
        (la, ha), (lb, hb) = r_bounds(st.range(a)), r_bounds(st.range(b))
        na, nb = la is not None and la >= 0, lb is not None and lb >= 0
        if isinstance(a, int) and a < 0 or isinstance(b, int) and b < 0:
            # comparison with a huge constant such as npos
            if isinstance(b, int) and b == -1:
                if p == 'ule':
                    return True
                if p == 'ugt':
                    return False
                if na:
                    return p in ('ult', 'ule')
            if isinstance(a, int) and a == -1:
                if p == 'uge':
                    return True
                if p == 'ult':
                    return False
                if nb:
                    return p in ('ugt', 'uge')
            return None
        if isinstance(b, int) and b == 0:
            if p == 'uge':
                return True
            if p == 'ult':
                return False
            if p == 'ugt':
                return eval_cmp(st, 'ne', a, b, w)
            return eval_cmp(st, 'eq', a, b, w)
        if not (na and nb):
            return None
        p = 's' + p[1:]
    d = lin_add(a, b, -1)
    if d is None:
        (la, ha), (lb, hb) = r_bounds(st.range(a)), r_bounds(st.range(b))
        lo = None if la is None or hb is None else la - hb
        hi = None if ha is None or lb is None else ha - lb
    elif isinstance(d, int):
        lo = hi = d
    else:
        lo, hi = r_bounds(st.range(d))
    if p == 'slt':
        return True if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None
    if p == 'sle':
        return True if hi is not None and hi <= 0 else False if lo is not None and lo > 0 else None
    if p == 'sgt':
        return True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None
    return True if lo is not None and lo >= 0 else False if hi is not None and hi < 0 else None


def assume_cmp(st, p, a, b, w):
    """Adds a p b to the state; False if infeasible."""
    e = eval_cmp(st, p, a, b, w)
    if e is False:
        return False
    if e is True:
        return True
    if p == 'eq':
        ra, rb = st.range(a), st.range(b)
        m = r_meet(ra, rb)
        if r_empty(m):
            # may be equal atoms of different naming (fd tokens)
            return True
        if isinstance(a, V) and a.tag in ('s', 'op', 'lin') and not st.meet(a, m):
            return False
        if isinstance(b, V) and b.tag in ('s', 'op', 'lin') and not st.meet(b, m):
            return False
        if isinstance(a, V) and isinstance(b, V):
            d = lin_add(a, b, -1)
            if isinstance(d, V) and not st.meet(d, R_set(0)):
                return False
        return True
    if p == 'ne':
        for x, y in ((a, b), (b, a)):
            ry = st.range(y)
            if isinstance(x, V) and ry[0] == 'set' and len(ry[1]) == 1:
                c = next(iter(ry[1]))
                if x.tag in ('s', 'op'):
                    rx = st.range(x)
                    if rx[0] == 'set':
                        if c in rx[1] and (isinstance(c, int) or c.tag in ('P', 'F', 'it')):
                            if not st.meet(x, ('set', rx[1] - {c})):
                                return False
                    elif not st.meet(x, R_iv(rx[1], rx[2], rx[3] | {c})):
                        return False
                elif x.tag == 'lin' and isinstance(c, int) and len(x.a[0]) == 1 and x.a[0][0][1] in (1, -1):
                    s, k = x.a[0][0]
                    return assume_cmp(st, 'ne', s, (c - x.a[1]) * k, w)
        if isinstance(a, V) and isinstance(b, V) or isinstance(b, int) and isinstance(a, V) and a.tag == 'lin' and len(a.a[0]) > 1:
            d = lin_add(a, b, -1)
            if isinstance(d, V) and d.tag == 'lin':
                lo, hi = r_bounds(st.range(d))
                if lo == 0:
                    return st.meet(d, R_iv(1, None))
                if hi == 0:
                    return st.meet(d, R_iv(None, -1))
                k, sg = norm_key(d)
                cur = st.f.get(k, TOP)
                if cur[0] == 'iv':
                    st.f[k] = R_iv(cur[1], cur[2], cur[3] | {-d.a[1] * sg})
        return True
    if p[0] == 'u':
        (la, ha), (lb, hb) = r_bounds(st.range(a)), r_bounds(st.range(b))
        na, nb = la is not None and la >= 0, lb is not None and lb >= 0
        if isinstance(b, int) and b == 0 and p == 'ugt':
            return assume_cmp(st, 'ne', a, b, w)
        if isinstance(b, int) and b == 0 and p == 'ule':
            return assume_cmp(st, 'eq', a, b, w)
        if nb and p in ('ult', 'ule') and not na:
            # a <u b with b >= 0 implies a >= 0 (no wrap)
            if isinstance(a, V) and a.tag in ('s', 'op', 'lin') and not st.meet(a, R_iv(0, None)):
                return False
            na = True
        if na and p in ('ugt', 'uge') and not nb:
            if isinstance(b, V) and b.tag in ('s', 'op', 'lin') and not st.meet(b, R_iv(0, None)):
                return False
            nb = True
        if not (na and nb):
            return True
        p = 's' + p[1:]
    if p in ('sgt', 'sge'):
        a, b = b, a
        p = 'slt' if p == 'sgt' else 'sle'
    k = -1 if p == 'slt' else 0
    (la, ha), (lb, hb) = r_bounds(st.range(a)), r_bounds(st.range(b))
    if hb is not None and isinstance(a, V) and a.tag in ('s', 'op', 'lin'):
        if not st.meet(a, R_iv(None, hb + k)):
            return False
    if la is not None and isinstance(b, V) and b.tag in ('s', 'op', 'lin'):
        if not st.meet(b, R_iv(la - k, None)):
            return False
    d = lin_add(a, b, -1)
    if isinstance(d, V) and d.tag == 'lin' and len(d.a[0]) > 1:
        return st.meet(d, R_iv(None, k))
    return True


def assume(st, e, t):
    """Assumes that boolean value e is t. False if infeasible."""
    if isinstance(e, int):
        return bool(e & 1) == t
    if e.tag == 'op':
        op = e.a[0]
        if op == 'icmp':
            cur = st.f.get(e)
            if cur == R_set(0 if t else 1):
                return False
            p = e.a[1] if t else INV[e.a[1]]
            if not assume_cmp(st, p, e.a[2], e.a[3], e.a[4]):
                return False
            if e.a[2] is not None:
                st.f[e] = R_set(1 if t else 0)
            return True
        if op == 'not':
            return assume(st, e.a[1], not t)
    r = st.range(e)
    n = r_meet(r, R_set(1) if t else R_set(0)) if e.tag in ('s', 'op') and (r == R_set(0, 1) or r == TOP or r[0] == 'iv') else r
    if r == R_set(0):
        return not t
    if r == R_set(1):
        return t
    if r[0] == 'set' and all(isinstance(x, int) for x in r[1]):
        n = ('set', frozenset(x for x in r[1] if bool(x & 1) == t))
        if r_empty(n):
            return False
    if e.tag in ('s', 'op'):
        st.f[e] = n
    return True


# ---------------------------------------------------------------- joins

GHOST = mk('sp', 'ghost')
AFFINE = False       # whether joins keep constant differences between joined numbers


def lin_ok(v):
    return isinstance(v, int) or isinstance(v, V) and v.tag in ('s', 'lin')


class Joiner:
    def __init__(self, old, new, site, widen):
        self.old, self.new, self.site, self.widen = old, new, site, widen
        self.tab = {}
        self.used = set()
        self.f = {}
        self.pairs = []

    def sym(self, a, b, cell):
        p = (a, b)
        s = self.tab.get(p)
        if s is not None:
            return s
        if AFFINE and lin_ok(a) and lin_ok(b):
            for s2, a2, b2 in self.pairs:
                if lin_ok(a2) and lin_ok(b2):
                    k = lin_add(a, a2, -1)
                    if isinstance(k, int) and -8 <= k <= 8 and lin_add(b, b2, -1) == k:
                        return lin_add(s2, k)
        if isinstance(a, V) and a.tag == 's' and a.a[0] == self.site and a not in self.used:
            s = a
        else:
            s = mk('s', self.site, cell)
            k = 0
            while s in self.used:
                k += 1
                s = mk('s', self.site, cell, k)
        self.used.add(s)
        self.tab[p] = s
        ra, rb = self.old.range(a), self.new.range(b)
        r = r_union(ra, rb)
        if r[0] == 'set' and len(r[1]) > MAXSET:
            r = TOP
        if self.widen and s is a:
            r = r_widen(ra, r)
        if r != TOP:
            self.f[s] = r
        self.pairs.append((s, a, b))
        return s

    def jn(self, a, b, cell):
        """Joins sizes"""
        v = self.jv(a, b, cell)
        if SHAPES and isinstance(v, V) and v.tag == 's':
            r = self.f.get(v, TOP)
            if r[0] == 'iv' and (r[1] is None or r[1] < 0):
                self.f[v] = r_meet(r, NAT)
        return v

    def jv(self, a, b, cell):
        if a is b or (not isinstance(a, V) and a == b):
            return a
        if isinstance(a, V) and isinstance(b, V) and a.tag == b.tag:
            t = a.tag
            if t == 'S':
                return mk('S', self.jv(a.a[0], b.a[0], (cell, 'i')), self.jn(a.a[1], b.a[1], (cell, 'n')), slab(a) | slab(b))
            if t == 'vec':
                return self.jvec(a, b, cell)
            if t == 'map':
                return self.jmap(a, b, cell)
            if t == 'P' or t == 'it':
                o = self.jobj(a.a[0], b.a[0], cell)
                if o is not None:
                    return mk(t, o, self.jv(a.a[1], b.a[1], (cell, 'o')))
            if t == 'agg':
                if len(a.a[0]) == len(b.a[0]):
                    return mk('agg', tuple(self.jv(x, y, (cell, i)) for i, (x, y) in enumerate(zip(a.a[0], b.a[0]))))
        return self.sym(a, b, cell)

    def jobj(self, a, b, cell):
        if a is b:
            return a
        if a.tag != b.tag:
            return None
        if a.tag == 'el' and a.a[0] is b.a[0] and a.a[2:] == b.a[2:] and not kpos(a) and not kpos(b):
            return mk('el', a.a[0], self.jv(a.a[1], b.a[1], (cell, 'e')), *a.a[2:])
        if a.tag in ('sd', 'vd') and a.a[1] == b.a[1]:
            o = self.jobj(a.a[0], b.a[0], (cell, 'd'))
            return None if o is None else mk(a.tag, o, a.a[1])
        if a.tag == 'cs':
            return mk('cs', self.jv(a.a[0], b.a[0], (cell, 'c')))
        return None

    def jcells(self, a, b, cell):
        """Joins the contents of two elements: tuples of (off, size, value)."""
        da = {o: (n, v) for o, n, v in a}
        db = {o: (n, v) for o, n, v in b}
        out = []
        for o in sorted(set(da) & set(db)):
            if da[o][0] == db[o][0]:
                out.append((o, da[o][0], self.jv(da[o][1], db[o][1], (cell, o))))
        return tuple(out)

    def jvec(self, a, b, cell):
        es = a.a[0] if a.a[0] == b.a[0] else 0
        sa, sb = list(a.a[1]), list(b.a[1])
        pre, post = [], []
        while sa and sb and sa[0] is sb[0]:
            pre.append(sa.pop(0))
            sb.pop(0)
        while sa and sb and sa[-1] is sb[-1]:
            post.insert(0, sa.pop())
            sb.pop()
        mid = self.jsegs(sa, sb, cell)
        return mk('vec', es, norm_segs(pre + mid + post), self.jn(a.a[2], b.a[2], (cell, 'n')))

    def jsegs(self, sa, sb, cell):
        if not sa and not sb:
            return []
        # try to view both as a slice of the same sequence with the same lower bound
        for x, y in ((sa, sb), (sb, sa)):
            if len(x) == 1:
                lo = slice_of(x[0])
                if lo is not None:
                    src, l, h = lo
                    if not y:
                        return [mk('sl', src, l, self.jv(h, l, (cell, 'h')) if x is sa else self.jv(l, h, (cell, 'h')))]
                    o = as_slice(y, src)
                    if o is not None and o[0] == l:
                        return [mk('sl', src, l, self.jv(h, o[1], (cell, 'h')) if x is sa else self.jv(o[1], h, (cell, 'h')))]
        if len(sa) == len(sb):
            out = []
            for i, (x, y) in enumerate(zip(sa, sb)):
                if x.tag == 'one' and y.tag == 'one':
                    out.append(mk('one', self.jcells(x.a[0], y.a[0], (cell, 'v', i))))
                elif x.tag == 'sl' and y.tag == 'sl' and x.a[0] is y.a[0] and x.a[1] == y.a[1]:
                    out.append(mk('sl', x.a[0], x.a[1], self.jv(x.a[2], y.a[2], (cell, 'h', i))))
                else:
                    out = None
                    break
            if out is not None:
                return out
        return [self.any(sa + sb, cell)]

    def any(self, segs, cell):
        """Summarises segments as zero or more elements."""
        contents = None
        srcs = frozenset()
        for s in segs:
            if s.tag == 'one':
                c = s.a[0]
            elif s.tag == 'any':
                c = s.a[0]
                srcs = srcs | s.a[1]
            else:
                srcs = srcs | {s.a[0]}
                continue
            contents = c if contents is None else self.jsum(contents, c, cell)
        return mk('any', contents, srcs)

    def jsum(self, a, b, cell):
        if a is None or b is None:
            return a or b
        da = {o: (n, v) for o, n, v in a}
        db = {o: (n, v) for o, n, v in b}
        out = []
        for o in sorted(set(da) & set(db)):
            x, y = da[o], db[o]
            if x[0] == y[0]:
                if x[1] is y[1] or x[1] == y[1]:
                    out.append((o, x[0], x[1]))
                elif isinstance(x[1], V) and isinstance(y[1], V) and x[1].tag == 'S' and y[1].tag == 'S':
                    out.append((o, x[0], mk('S', mk('u', idset(x[1].a[0]) | idset(y[1].a[0])), mk('s', ('sum',), cell), slab(x[1]) | slab(y[1]))))
        return tuple(out)

    def jmap(self, a, b, cell):
        ea, eb = dict(a.a[1]), dict(b.a[1])
        out = {}
        rest = a.a[2] | b.a[2]
        for k in set(ea) | set(eb):
            if k in ea and k in eb:
                if ea[k] is eb[k] or ea[k] == eb[k]:
                    out[k] = ea[k]
                else:
                    out[k] = self.jcells(ea[k], eb[k], (cell, k))
            else:
                c = ea.get(k) or eb.get(k)
                rest = rest | entry_labels(k, c)
        return mk('map', a.a[0] if a.a[0] == b.a[0] else 0, tuple(sorted(out.items(), key=lambda t: id(t[0]))), rest, self.jn(a.a[3], b.a[3], (cell, 'n')))


SHAPES = False       # whether labels of strings are sequences of pieces (see shapes)


def shapes(s):
    """The shapes of a string: tuples of pieces, a literal piece being '=' and its text"""
    if s.a[0].tag == 'lit' and not s.a[2]:
        return frozenset((('=' + s.a[0].a[0].decode('latin-1'),) if s.a[0].a[0] else (),))
    if not s.a[2]:
        return frozenset((('?',),))
    return frozenset(x if isinstance(x, tuple) else (x,) for x in s.a[2])


def slab(s):
    return shapes(s) if SHAPES else s.a[2]


def shape_cat(a, b):
    out = set()
    for x in a:
        for y in b:
            t = list(x)
            for p in y:
                if t and t[-1][:1] == '=' and p[:1] == '=':
                    t[-1] += p[1:]
                elif not (t and t[-1] == p):
                    t.append(p)
            out.add(tuple(t) if len(t) <= 6 else ('?',))
    return frozenset(out) if len(out) <= 24 else frozenset((('?',),))


def shape_mod(s, what):
    """The shapes of an unknown part of a string (or of an unknown function of it): one piece `what:bases`."""
    whats, bases = {what}, set()
    for t in s:
        for p in t:
            if p[:1] == '=':
                continue
            w, c, b = p.rpartition(':')
            if c and w[:1] != '=':
                whats |= set(w.split('.'))
            bases |= set(b.split('+'))
    if len(bases) > 1:
        bases.discard('?')
    if bases <= set(('in', '?')) and whats <= set(('part', 'erase', 'replace')):
        return frozenset((('+'.join(sorted(bases)),),)) if bases else frozenset((('?',), ()))
    return frozenset((('%s:%s' % ('.'.join(sorted(whats)), '+'.join(sorted(bases)) or '?'),),))


def kpos2(p):
    return isinstance(p, V) and p.tag == 'k'


def kpos(el):
    return kpos2(el.a[1])


def idset(i):
    return i.a[0] if i.tag == 'u' else frozenset((i,))


def entry_labels(k, cells):
    r = set()
    for o, n, v in cells:
        if isinstance(v, V) and v.tag == 'S':
            r |= slab(v)
    return frozenset(r)


def slice_of(seg):
    """A segment seen as a slice: (source, lo, hi)"""
    if seg.tag == 'sl':
        return seg.a
    if seg.tag == 'one':
        return elem_src(seg.a[0])
    return None


def elem_src(cells):
    """Contents that are exactly element p of a sequence: (source, p, p+1)"""
    if len(cells) >= 1:
        v = cells[0][2]
        if isinstance(v, V):
            if v.tag == 'S' and v.a[0].tag == 'f' and v.a[0].a[1] == 0 and v.a[0].a[0].tag == 'e' and not kpos2(v.a[0].a[0].a[1]):
                return v.a[0].a[0].a[0], v.a[0].a[0].a[1], plus1(v.a[0].a[0].a[1])
            if v.tag == 'P' and v.a[0].tag == 'sd' and v.a[1] == 0 and v.a[0].a[0].tag == 'el' and v.a[0].a[1] == 0:
                el = v.a[0].a[0]
                return mk('cptr', el.a[0]), el.a[1], plus1(el.a[1])
    return None


def plus1(p):
    r = lin_add(p, 1)
    return r if r is not None else mk('nx', p)


def as_slice(segs, src):
    """Segments that form a contiguous slice of src: (lo, hi) or None"""
    lo = hi = None
    for s in segs:
        x = slice_of(s)
        if x is None or x[0] is not src:
            return None
        if lo is None:
            lo, hi = x[1], x[2]
        elif x[1] == hi or x[1] is hi:
            hi = x[2]
        else:
            return None
    return None if lo is None else (lo, hi)


def norm_segs(segs):
    """Merges adjacent slices of the same source; drops empty ones."""
    out = []
    for s in segs:
        if s.tag == 'sl' and (s.a[1] is s.a[2] or s.a[1] == s.a[2]):
            continue
        if out:
            x, y = slice_of(out[-1]), slice_of(s)
            if x is not None and y is not None and x[0] is y[0] and (x[2] is y[1] or x[2] == y[1]):
                out[-1] = mk('sl', x[0], x[1], y[2])
                continue
        out.append(s)
    return tuple(out)


def join(old, new, site, widen, initial, numeric=False):
    """Joins new into old (at merge point `site`). Returns old itself if nothing changed."""
    if new.has_site(site):
        new = new.copy()
        new.retire(site)
    J = Joiner(old, new, site, widen)
    changed = False
    nm, om = new.m, old.m
    m = dict(om)
    ng = nm.get
    diff = [k for k, a in om.items() if ng(k) is not a]
    if len(nm) + len(diff) != len(om) or any(k in nm for k in diff):
        diff += [k for k in nm if k not in om]
    for k in diff:
        a, b = om.get(k), nm.get(k)
        m.pop(k, None)
        if a is None or b is None:
            o = a or b
            if k.tag in ('g', 'sp'):
                # untouched in one state: initial value
                c = {}
                for off, (n, v) in o.c.items():
                    iv = initial(k, off, n)
                    x, y = (v, iv) if a is not None else (iv, v)
                    c[off] = (n, J.jv(x, y, (k, off)))
                m[k] = Obj(c)
                if a is None or any(c[off] != a.c.get(off) for off in c):
                    changed = True
            elif a is not None:
                changed = True
            continue
        if a is b:
            m[k] = a
            continue
        c = {}
        for off, (n, v) in a.c.items():
            y = b.c.get(off)
            if y is None or y[0] != n:
                y = initial(k, off, n) if k.tag in ('g', 'sp') else blobval(b, off, n)
                if y is None:
                    continue
                c[off] = (n, J.jv(v, y, (k, off)))
            else:
                c[off] = (n, J.jv(v, y[1], (k, off)))
        for off, (n, v) in b.c.items():
            if off not in a.c:
                x = initial(k, off, n) if k.tag in ('g', 'sp') else blobval(a, off, n)
                if x is not None:
                    c[off] = (n, J.jv(x, v, (k, off)))
        bl = None
        if a.b and b.b:
            bl = {}
            for off in a.b:
                if off in b.b:
                    if a.b[off] == b.b[off]:
                        bl[off] = a.b[off]
                    elif a.b[off][0] == b.b[off][0]:
                        bl[off] = (a.b[off][0], J.sym(a.b[off][1], b.b[off][1], (k, off, 'b')))
        if c == a.c and (bl or None) == (a.b or None):
            m[k] = a
        else:
            m[k] = Obj(c, bl or None)
            changed = True
    g = {}
    for k in set(old.g) | set(new.g):
        a, b = old.g.get(k), new.g.get(k)
        if a is b or a == b:
            g[k] = a
        elif isinstance(k, str) and k.startswith('may'):
            g[k] = (a or frozenset()) | (b or frozenset())
        elif isinstance(k, str) and k.startswith('must'):
            g[k] = (a or frozenset()) & (b or frozenset())
        elif a is None or b is None:
            continue
        elif isinstance(a, (int, V)) and isinstance(b, (int, V)):
            g[k] = J.jv(a, b, ('g', k))
        else:
            continue
        if g[k] != a:
            changed = True
    if set(g) != set(old.g):
        changed = True
    r = {}
    for k, a in old.r.items():
        if k in new.r:
            r[k] = J.jv(a, new.r[k], ('r', k))
            if r[k] is not a and r[k] != a:
                changed = True
    # facts
    f = {}
    nf = new.f
    for k, ra in old.f.items():
        if site in (k._k or keysites(k)):
            continue    # handled through pairs
        rb = nf.get(k)
        if rb is ra:
            f[k] = ra
            continue
        if rb is None:
            if k.tag == 's':
                continue
            rb = new.range(k)
        u = r_union(ra, rb)
        if widen and u != ra:
            u = r_widen(ra, u)
        if u != TOP:
            f[k] = u
    of = old.f
    for k, rb in nf.items():
        if k not in of and k.tag != 's' and k not in f and not site in (k._k or keysites(k)):
            ro = old.range(k)
            u = r_union(ro, rb)
            if u != TOP and u != R_set(0, 1) and ro != TOP:
                f[k] = u
    f.update(J.f)
    # facts of old about symbols of this site: rephrase in new's terms
    inv = {}
    for s, a, b in J.pairs:
        if s is a:
            inv[a] = b
    ident = {}
    for k, ra in old.f.items():
        if k.tag != 's' and site in (k._k or keysites(k)):
            ks = syms(k)
            if all(s in inv or s.a[0] != site for s in ks):
                k2 = rephrase(k, inv)
                if k2 is not None:
                    rb = new.range(k2) if isinstance(k2, V) else R_set(k2)
                    u = r_union(ra, rb)
                    if widen and u != ra:
                        u = r_widen(ra, u)
                    if u != TOP:
                        f[k] = u
    # equations about numbers that are joined here: kept if they hold on both sides
    for st, ot, x, y in ((new, old, 2, 1), (old, new, 1, 2)):
        mp = None
        for k, rk in list(st.f.items()):
            if k.tag != 'lin' or len(k.a[0]) < 2:
                continue
            lo, hi = r_bounds(rk)
            if lo is not None and lo == hi or lo is not None and lo >= 0 or hi is not None and hi <= 0:
                if mp is None:
                    mp = {}
                    for q in J.pairs:
                        z = q[x]
                        if isinstance(z, V) and q[0] is not z and isint(old, q[1]) and isint(new, q[2]):
                            if z.tag == 's':
                                mp[z] = q[0]
                            elif z.tag == 'lin' and len(z.a[0]) == 1 and z.a[0][0][1] == 1:
                                mp.setdefault(z.a[0][0][0], lin_add(q[0], z.a[1], -1))
                    bk = {q[0]: q[y] for q in J.pairs}
                if not any(s in mp for s, _ in k.a[0]):
                    continue
                k2 = rephrase(k, mp)
                if not isinstance(k2, V) or k2.tag != 'lin':
                    continue
                l1, h1 = (None if lo is None else lo - k2.a[1]), (None if hi is None else hi - k2.a[1])
                k2, sg = norm_key(k2)
                if k2.tag != 'lin' or k2 in f:
                    continue
                k3 = rephrase(k2, bk)
                if k3 is None:
                    continue
                r3 = R_set(k3) if isinstance(k3, int) else ot.range(k3)
                if sg < 0:
                    l1, h1 = (None if h1 is None else -h1), (None if l1 is None else -l1)
                if lo == hi:
                    if r3 == R_set(l1):
                        f[k2] = r3
                    continue
                l3, h3 = r_bounds(r3)
                if l1 is not None and l1 >= 0:
                    if l3 is not None and l3 >= 0:
                        f[k2] = R_iv(0, None)
                elif h1 is not None and h1 <= 0 and h3 is not None and h3 <= 0:
                    f[k2] = R_iv(None, 0)
    # counters: what was a and is a + 1 now stays below what has been found to be above it
    if site[0] == 'j':
        for q in J.pairs:
            a, b = q[1], q[2]
            if isinstance(a, int) and isinstance(b, int) and 0 <= a and b == a + 1:
                for k, rk in nf.items():
                    if k.tag == 'lin' or k.tag == 's' and k.a[0] == LN:
                        lo, hi = r_bounds(rk)
                        if lo is not None and lo >= b and lo != hi and site not in (k._k or keysites(k)):
                            lo = r_bounds(old.range(k))[0]
                            k2 = lin_add(k, q[0], -1)
                            if lo is not None and lo >= a and isinstance(k2, V) and k2.tag == 'lin' and not k2.a[1]:
                                k2, sg = norm_key(k2)
                                if k2 not in f:
                                    f[k2] = R_iv(0, None) if sg > 0 else R_iv(None, 0)
    if AFFINE:
        o = m.get(GHOST)
        if o is not None:
            numeric_facts(J, old, new, f, widen, syms(tuple(x[1] for x in o.c.values())))
    elif numeric and len(J.pairs) <= 24:
        numeric_facts(J, old, new, f, widen)
    for k, ra in old.f.items():
        if f.get(k) != ra:
            changed = True
            break
    if not changed:
        return old
    s = State()
    s.m, s.f, s.g, s.r = m, f, g, r
    s.tr = new.tr if new.tr is not None else old.tr
    s.sx = old.sx | new.sx
    s.sx.add(site)
    gc(s)
    return s


def gc(s):
    """Drops facts about symbols that occur nowhere."""
    if not s.f:
        return
    live = set()
    for k, o in s.m.items():
        x = o._s
        if x is None:
            x = o.syms()
        if x:
            live |= x
        x = k._s
        if x is None:
            x = syms(k)
        if x:
            live |= x
    for v in s.g.values():
        if isinstance(v, (V, tuple, frozenset)):
            live |= syms(v)
    for v in s.r.values():
        if isinstance(v, V):
            live |= syms(v)
    dead = [k for k in s.f if not (k._s or syms(k)) <= live]
    for k in dead:
        del s.f[k]
    if len(s.sx) > 64:
        x = {v.a[0] for v in live}
        s.sx &= x


def numeric_facts(J, old, new, f, widen, only=None):
    ps = [(s, a, b) for s, a, b in J.pairs if isint(old, a) and isint(new, b) and (only is None or s in only)]
    base = []
    seen = set()
    for st in (old, new):
        for k in st.f:
            for s in syms(k):
                if (only is None or s in only) and s.a[0] != J.site and s not in seen and s in (old.f if st is old else new.f) and len(seen) < 24:
                    seen.add(s)
                    base.append((s, s, s))
    allp = ps + base
    for i, (s, a, b) in enumerate(ps):
        for s2, a2, b2 in allp[i + 1:] if (s, a, b) in ps else ():
            d = lin_add(s, s2, -1)
            da, db = lin_add(a, a2, -1), lin_add(b, b2, -1)
            if d is None or da is None or db is None or not isinstance(d, V) or d.tag != 'lin' or len(d.a[0]) < 2:
                continue
            k, sg = norm_key(d)
            ra = old.range(da) if isinstance(da, V) else R_set(da)
            rb = new.range(db) if isinstance(db, V) else R_set(db)
            ra, rb = r_scale(ra, sg), r_scale(rb, sg)
            u = r_union(ra, rb)
            if widen and u != ra:
                u = r_widen(ra, u)
            if u != TOP:
                f[k] = u if k not in f else r_meet(f[k], u)


def isint(st, v):
    return isinstance(v, int) or v.tag in ('s', 'lin', 'op')


def rephrase(k, inv):
    if k.tag == 'lin':
        t = None
        out = 0
        for s, c in k.a[0]:
            x = inv.get(s, s)
            if isinstance(x, V) and x.tag not in ('s', 'lin', 'op'):
                return None
            out = lin_add(out, x, c)
            if out is None:
                return None
        return out
    memo = {}

    def sub(v):
        if isinstance(v, V):
            if v in inv:
                return inv[v]
            if not syms(v):
                return v
            if v.tag == 'lin':
                return rephrase(v, inv)
            xs = [sub(x) for x in v.a]
            if any(x is None for x in xs):
                return None
            return mk(v.tag, *xs)
        if isinstance(v, tuple):
            return tuple(sub(x) for x in v)
        return v
    try:
        return sub(k)
    except Exception:
        return None


def blobval(o, off, n):
    if o.b and isinstance(off, int):
        for bo, (bn, org) in o.b.items():
            if bo <= off and off + n <= bo + bn:
                return lazy(org, off - bo, n)
    return None


LAZY = []


def lazy(org, off, n):
    if org == 0 and isinstance(org, int):
        return 0
    for h in LAZY:
        r = h(org, off, n)
        if r is not None:
            return r
    return mk('s', ('lz',), org, off, n)


def sorted_keys(a, b):
    # deterministic order matters for naming; insertion order of `a`, then of `b`
    out = list(a.m)
    out += [k for k in b.m if k not in a.m]
    return out
