"""Abstract interpreter over the exported program (structured by calls, joins at merge blocks)."""
import heapq, os, sys, time
from val import *
from state import *
import state as S
import ir as IR

sys.setrecursionlimit(20000)
DEBUG = bool(os.environ.get('SA_DEBUG'))


SPECIAL = frozenset(('el', 'sd', 'cs', 'argv'))


class AnalysisError(Exception):
    pass


class Violation:
    def __init__(self, rule, msg, where, stack, detail=''):
        self.rule, self.msg, self.where, self.stack, self.detail = rule, msg, where, stack, detail

    def key(self):
        return (self.rule, self.where, self.msg)


class Mon:
    """A property monitor. Ghost state lives in st.g; keys starting with 'k_' separate states."""
    numeric = False
    keyed = ()           # ghost variables that separate states: 'sig', 'fd', 'daemon'
    opaque = ()          # canonical names (or prefixes ending in '*') that are replaced by arbitrary results
    maxstates = 400
    split = True         # analyse Process::run separately, from the states in which it is called

    def __init__(self):
        self.violations = {}
        self.stats = {}
        self.I = None

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def site(self, k, x):
        self.stats.setdefault(k, set()).add(x)

    def bad(self, st, rule, msg, detail=''):
        I = self.I
        v = Violation(rule, msg, I.where(), I.stacktrace(), detail)
        self.violations.setdefault(v.key(), v)

    # hooks
    def start(self, st): pass
    def call(self, st, f, args, ins): return None
    def event(self, st, ev, **k): pass
    def branch(self, st, e, t): pass
    pollsplit = False    # whether a poll is analysed separately for each descriptor that an entry can have
    def key(self, st): return ()
    def end(self, st, how, status): pass
    def store(self, st, ptr, size, v): pass
    def pre(self, st, name, args): pass
    def post(self, st, name, args, ret, err): pass
    def append(self, st, loc, cells): return cells
    def unknown(self, st, f, args): pass
    def compare(self, st, x, y): pass
    def index(self, st, kind, s, idx): pass
    def span(self, st, kind, p, n): pass
    def erase(self, st, s, off, n): pass
    def resize(self, st, s, k): pass
    def insert(self, st, loc, at, segs): pass
    def mapvalue(self, st, loc, key, v): return v
    def shrink(self, st, loc, v, what): pass
    def ready(self, st, rev, expr): pass
    def stream(self, st, p, args): pass
    def split_end(self, st, kind): pass


class Interp:
    def __init__(self, prog, mon, budget=800):
        self.p = prog
        self.mon = mon
        mon.I = self
        self.ctxs = {}
        self.ctxinfo = [None]
        self.stack = []          # (fn, ctx, ins)
        self.handlers = []       # stack of catch clause lists
        self.curins = None
        self.steps = 0
        self.blocks = 0
        self.seq = 0
        self.prof = {}
        self.entries = {}
        self.dead = {}
        self.splits = {}
        self.keystack = []
        self.joins = 0
        self.deadline = time.time() + budget
        self.havoced = {}
        self.visited = set()
        self.reached = set()
        import models
        self.models = models.Models(self)
        S.LAZY[:] = [self.models.lazy]
        self.opaque_exact = {x for x in mon.opaque if not x.endswith('*')}
        self.opaque_pre = tuple(x[:-1] for x in mon.opaque if x.endswith('*'))
        self._initcache = {}
        self._decoded = set()

    # ------------------------------------------------------------ diagnostics
    def where(self):
        i = self.curins
        f = self.stack[-1][0] if self.stack else None
        # the innermost line in the user's own sources
        if i is not None and i.get('l'):
            return '%s:%d' % (short(i.get('f', '')), i['l'])
        for fn, ctx, ins in reversed(self.stack):
            if ins is not None and ins.get('l'):
                return '%s:%d' % (short(ins.get('f', '')), ins['l'])
        return f.name if f else '?'

    def stacktrace(self):
        out = []
        for k, (fn, ctx, ins) in enumerate(self.stack):
            nxt = self.stack[k + 1][2] if k + 1 < len(self.stack) else self.curins
            out.append('%s (%s:%s)' % (fn.name[:90], short((nxt or {}).get('f', fn.file)), (nxt or {}).get('l', '?')))
        return out

    # ------------------------------------------------------------ program preparation
    def decode(self, f):
        if f.sym in self._decoded:
            return
        self.p.prep(f)
        self._decoded.add(f.sym)

        def dv(v):
            k = v[0]
            if k == 'i':
                return ['c', sgn(int(v[2]), v[1])]
            if k in ('n', 'z'):
                return ['c', 0]
            if k == 'u':
                return ['c', 0]
            if k == 'g':
                return ['c', P(mk('g', v[1]), v[2])]
            if k == 'f':
                return ['c', F(v[1])]
            if k == 'x':
                return ['c', mk('s', ('x',), 'constexpr')]
            return v
        for b in f.blocks:
            for i in b:
                if '_dec' in i:
                    continue
                i['_dec'] = True
                for k in ('p', 'v', 'b', 'c', 'x', 'y', 'e', 'fn'):
                    v = i.get(k)
                    if isinstance(v, list) and v and isinstance(v[0], str):
                        i[k] = dv(v)
                if i['o'] == 'gep':
                    i['i'] = [(dv(v), s) for v, s in i['i']]
                if 'a' in i and isinstance(i['a'], list):
                    for a in i['a']:
                        a['v'] = dv(a['v'])
                if i['o'] == 'phi':
                    i['in'] = {b: dv(v) for v, b in i['in']}
                if 'ops' in i:
                    i['ops'] = [dv(v) for v in i['ops']]
                if i['o'] == 'landingpad':
                    i['cl'] = [dv(v) if v[0] != 'filter' else ['filter'] for v in i['cl']]
                if i['o'] == 'switch':
                    i['cs'] = [(int(c), t) for c, t in i['cs']]
        f.nregs = 0

    def ctx(self, parent, site):
        k = (parent, site)
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxinfo)
            self.ctxs[k] = c
            self.ctxinfo.append(k)
        return c

    # ------------------------------------------------------------ memory
    def initial(self, obj, off, size):
        """Initial contents of globals and special objects."""
        if obj.tag == 'g':
            g = self.p.globals.get(obj.a[0])
            if g and 'init' in g and isinstance(off, int):
                k = (obj, off, size)
                if k in self._initcache:
                    return self._initcache[k]
                r = None
                for ro, rv in g.get('rel', ()):
                    if ro == off and size == 8:
                        r = P(mk('g', rv[1]), rv[2]) if rv[0] == 'g' else F(rv[1]) if rv[0] == 'f' else None
                if r is None:
                    b = bytes.fromhex(g['init'])[off:off + size]
                    if len(b) == size and size in (1, 2, 4, 8):
                        r = sgn(int.from_bytes(b, 'little'), 8 * size)
                if r is None:
                    r = mk('s', ('gi',), obj, off, size)
                self._initcache[k] = r
                return r
        return mk('s', ('gi',), obj, off, size)

    def load(self, st, ptr, size, w):
        """[(state, value)]"""
        ptr = st.resolve(ptr)
        if not isP(ptr):
            t = self.targets(st, ptr)
            if t is not None:
                out = []
                for s2, p2 in t:
                    out += self.load(s2, p2, size, w)
                return out
            return [(st, st.fresh(('ld', self.site()), 'v'))]
        obj, off = ptr.a
        v = self.loadc(st, obj, off, size, w)
        return [(st, v)]

    def site(self):
        fn, ctx, ins = self.stack[-1]
        return (ctx, self.curidx)

    def targets(self, st, ptr):
        """The pointers a symbolic pointer can be, as refined states."""
        if isinstance(ptr, V) and ptr.tag == 's':
            r = st.range(ptr)
            if r[0] == 'set' and all(isP(x) or isinstance(x, int) for x in r[1]):
                out = []
                for x in sorted(r[1], key=repr):
                    if isP(x):
                        s2 = st.copy()
                        s2.f[ptr] = R_set(x)
                        out.append((s2, x))
                return out
        return None

    def loadc(self, st, obj, off, size, w):
        t = obj.tag
        if t in SPECIAL:
            return self.models.load_special(st, obj, off, size, w)
        o = st.m.get(obj)
        if o is not None:
            c = o.c.get(off)
            if c is not None:
                if c[0] == size:
                    return c[1]
                return self.partial(st, obj, o, off, size, w)
            v = blobval(o, off, size)
            if v is not None:
                return v
            if isinstance(off, int):
                for k, (n, _) in o.c.items():
                    if isinstance(k, int) and k < off + size and off < k + n:
                        return self.partial(st, obj, o, off, size, w)
            else:
                off2 = st.const(off)
                if isinstance(off2, int):
                    return self.loadc(st, obj, off2, size, w)
                if t == 'g':
                    return self.initial_sym(st, obj, off, size, w)
                return st.fresh(('ld', self.site()), 'v', rng=width_range(w) if w < 64 else None)
        if t == 'bo':
            return lazy(obj.a[0], off, size) if isinstance(off, int) else st.fresh(('ld', self.site()), 'v')
        if t == 'g' or t == 'sp':
            if not isinstance(off, int):
                return self.initial_sym(st, obj, off, size, w)
            return self.initial(obj, off, size)
        s = mk('s', ('un',), obj, off, size)
        return s

    def initial_sym(self, st, obj, off, size, w):
        s = mk('s', ('gi',), obj, off, size)
        return s

    def partial(self, st, obj, o, off, size, w):
        """Load that does not coincide with a single cell: assemble constants bytewise, keep other cells as they are."""
        if isinstance(off, int) and size <= 8:
            v = self.constbytes(o, obj, off, size)
            if v is not None:
                return v
            for k, (n, v) in o.c.items():
                if isinstance(k, int) and k <= off and off + size <= k + n and n <= 8 and isinstance(v, V) and v.tag == 'op':
                    return self.frombits(self.bits(st, v, 8 * n)[8 * (off - k):8 * (off - k + size)], 8 * size)
        if isinstance(off, int) and size <= 16:
            cells = sorted((k - off, n, v) for k, (n, v) in o.c.items() if isinstance(k, int) and k < off + size and off < k + n) if all(isinstance(k, int) for k in o.c) else ()
            if cells and cells[0][0] >= 0 and cells[-1][0] + cells[-1][1] <= size:
                out, q = [], 0
                for k, n, v in cells + [(size, 0, None)]:
                    while q < k:
                        b = blobval(o, off + q, 1)
                        if not isinstance(b, int):
                            break
                        out.append((q, 1, b))
                        q += 1
                    if q != k:
                        break
                    if n:
                        out.append((k, n, v))
                    q = k + n
                else:
                    return mk('op', 'pk', tuple(out), size)
        return st.fresh(('ld', self.site()), 'p', rng=width_range(8 * size) if size < 8 else None)

    def constbytes(self, o, obj, off, size):
        bs = 0
        for i in range(size):
            b = None
            for k, (n, v) in o.c.items():
                if isinstance(k, int) and k <= off + i < k + n:
                    if isinstance(v, int):
                        b = uns(v, 8 * n) >> (8 * (off + i - k)) & 255
                    break
            else:
                bv = blobval(o, off + i, 1)
                if isinstance(bv, int):
                    b = uns(bv, 8)
                elif obj.tag == 'g':
                    iv = self.initial(obj, off + i, 1)
                    b = uns(iv, 8) if isinstance(iv, int) else None
            if b is None:
                return None
            bs |= b << (8 * i)
        return sgn(bs, 8 * size)

    def store(self, st, ptr, size, v):
        """[state]"""
        ptr = st.resolve(ptr)
        if not isP(ptr):
            t = self.targets(st, ptr)
            if t is not None:
                out = []
                for s2, p2 in t:
                    out += self.store(s2, p2, size, v)
                return out
            self.mon.store(st, ptr, size, v)
            return [st]
        obj, off = ptr.a
        self.mon.store(st, ptr, size, v)
        if obj.tag in SPECIAL:
            self.models.store_special(st, obj, off, size, v)
            return [st]
        if not isinstance(off, int):
            off2 = st.const(off)
            if isinstance(off2, int):
                off = off2
            else:
                # unknown offset: every cell of the object may change
                o = st.m.get(obj)
                if o is not None:
                    st.m[obj] = Obj({}, None)
                return [st]
        if isinstance(v, V) and v.tag == 'op' and v.a[0] == 'pk' and v.a[2] == size:
            for k, n, x in v.a[1]:
                st.put(obj, off + k, n, x)
            return [st]
        st.put(obj, off, size, v)
        return [st]

    # ------------------------------------------------------------ running functions
    def run(self, fn, st, args, parent=0, site='entry'):
        """Analyses fn from st. Returns [(kind, state, value)]; kind: 'ret' or 'throw'."""
        self.decode(fn)
        if any(f is fn for f, _, _ in self.stack):
            raise AnalysisError('recursion: ' + fn.name)
        c = self.ctx(parent, site)
        self.visited.add(fn.sym)
        st.r = {i: a for i, a in enumerate(args)}
        self.stack.append((fn, c, self.curins))
        sav = (self.curins, getattr(self, 'curidx', None))
        try:
            return self._run(fn, c, st)
        finally:
            self.stack.pop()
            self.curins, self.curidx = sav

    def statekey(self, st, fn, bi):
        g = st.g
        k = tuple([g[x] for x in sorted(x for x in g if x[0] == 'k')])
        live = fn.livein[bi]
        rk = []
        for r in live:
            v = st.r.get(r)
            if v is None:
                continue
            if isinstance(v, V):
                v = st.const(v)
                if v is not None and isinstance(v, V) and v.tag in ('S', 'agg'):
                    v = None
            rk.append((r, v))
        rk.sort(key=lambda t: t[0])
        if bi in fn.retcell:
            e = st.get(mk('a', self.stack[-1][1], fn.retcell[bi]), 0)
            v = st.const(e[1]) if e else None
            if isinstance(v, int):
                rk.append((-1, v))
        for a, top in fn.unroll.get(bi, ()):
            e = st.get(mk('a', self.stack[-1][1], a), 0)
            v = st.const(e[1]) if e else None
            if isinstance(v, int) and 0 <= v <= top:
                rk.append((-2 - a, v))
        for a in fn.flags.get(bi, ()):
            e = st.get(mk('a', self.stack[-1][1], a), 0)
            v = st.const(e[1]) if e else None
            if isinstance(v, int):
                rk.append((-1 << 20, a, v))
        return (k, tuple(rk), self.mon.key(st))

    def _run(self, fn, c, st0):
        mon = self.mon
        outcomes = []
        if DEBUG:
            self.tabs = getattr(self, 'tabs', {})
        tab = {}            # (block) -> {key: [state, count]}
        if DEBUG:
            self.tabs[(fn.name[:40], c)] = tab
        heap = []
        pending = set()     # (block, key)
        rpo = fn.rpo

        def arrive(bi, st):
            """A state reaches merge block bi."""
            live = fn.livein[bi]
            st.r = {r: v for r, v in st.r.items() if r in live}
            key = self.statekey(st, fn, bi)
            site = ('j', c, bi, ) + (hash_key(key),)
            t = tab.setdefault(bi, {})
            cur = t.get(key)
            if cur is None:
                if len(t) >= mon.maxstates:
                    raise AnalysisError('too many states at %s block %d' % (fn.name, bi))
                if st.has_site(site):
                    st.retire(site)
                gc(st)
                t[key] = [st, 0, 0]
            else:
                self.joins += 1
                cur[1] += 1
                j = join(cur[0], st, site, cur[1] > 3 if bi in fn.loophead else cur[1] > 12, self.initial, mon.numeric)
                if j is cur[0]:
                    return
                cur[2] += 1
                if DEBUG and cur[2] > 30:
                    import dbg
                    print('---', fn.name[:40], bi, cur[1])
                    for x in dbg.diff(cur[0], j)[:12]:
                        print('   ', *x)
                if cur[2] > 90:
                    raise AnalysisError('no convergence at %s block %d' % (fn.name, bi))
                cur[0] = j
            if (bi, key) not in pending:
                pending.add((bi, key))
                self.seq += 1
                heapq.heappush(heap, (rpo[bi], self.seq, bi, key))

        def goto(frm, bi, st):
            """Follows edge frm -> bi (phis), continuing directly into single-predecessor blocks."""
            b = fn.blocks[bi]
            if b[0]['o'] == 'phi':
                new = {}
                cond = None
                for i in b:
                    if i['o'] != 'phi':
                        break
                    v = new[i['d']] = self.val(st, i['in'][frm])
                    if i['t'] == 'i1' and isinstance(v, V) and v.tag == 'op' and len(fn.preds[bi]) > 1 and not isinstance(st.const(v), int):
                        cond = (i['d'], v)
                if cond is not None:
                    # the outcome of && or ||: decide it before the paths meet
                    d, v = cond
                    for t, s in ((True, st.copy()), (False, st)):
                        if assume(s, v, t) and self.models.refine(s, v, t) and mon.branch(s, v, t) is not False:
                            s.r.update(new)
                            s.r[d] = 1 if t else 0
                            arrive(bi, s)
                    return
                st.r.update(new)
            if len(fn.preds[bi]) > 1 or bi in fn.loophead:
                arrive(bi, st)
            else:
                work.append((bi, st))

        work = [(0, st0)]
        while True:
            while work:
                bi, st = work.pop()
                self.exec_block(fn, c, bi, st, goto, outcomes)
            if not heap:
                break
            _, _, bi, key = heapq.heappop(heap)
            if (bi, key) not in pending:
                continue
            pending.discard((bi, key))
            work.append((bi, tab[bi][key][0].copy()))
        # drop the frame and merge equal outcomes
        allocas = [mk('a', c, i['d']) for i in fn.blocks[0] if i['o'] == 'alloca']
        res = {}
        for n, (kind, st, v) in enumerate(outcomes):
            for a in allocas:
                st.m.pop(a, None)
            st.r = {0: v} if v is not None else {}
            g = st.g
            cv = st.const(v) if isinstance(v, V) else v
            if isinstance(cv, V) and cv.tag in ('S',):
                cv = None
            key = (kind, tuple([g[x] for x in sorted(x for x in g if x[0] == 'k')]), cv, mon.key(st))
            site = ('j', c, 'ret', hash_key(key))
            cur = res.get(key)
            if cur is None:
                if st.has_site(site):
                    st.retire(site)
                gc(st)
                res[key] = [st, 0]
            else:
                cur[1] += 1
                cur[0] = join(cur[0], st, site, cur[1] > 12, self.initial, mon.numeric)
        return [(k[0], s[0], s[0].r.get(0)) for k, s in res.items()]

    def val(self, st, v):
        if v[0] == 'c':
            return v[1]
        x = st.r.get(v[1])
        if x is None:
            return mk('s', ('ur',), v[1])
        return x

    def exec_block(self, fn, c, bi, st, goto, outcomes):
        self.blocks += 1
        self.reached.add((fn.sym, bi))
        if DEBUG:
            k9 = (fn.name[:40], c, bi)
            self.prof[k9] = self.prof.get(k9, 0) + 1
        if self.blocks % 512 == 0 and time.time() > self.deadline:
            raise AnalysisError('out of time')
        ins = fn.blocks[bi]
        work = [(0, st)]
        while work:
            k, st = work.pop()
            n = len(ins)
            while k < n:
                i = ins[k]
                self.curins = i
                self.curidx = (fn.sym, bi, k)
                o = i['o']
                if o == 'load':
                    r = self.load(st, self.val(st, i['p']), i['s'], i['w'])
                    for s2, v in r[1:]:
                        s2.r[i['d']] = v
                        work.append((k + 1, s2))
                    if not r:
                        break
                    st, v = r[0]
                    st.r[i['d']] = v
                elif o == 'store':
                    r = self.store(st, self.val(st, i['p']), i['s'], self.val(st, i['v']))
                    for s2 in r[1:]:
                        work.append((k + 1, s2))
                    if not r:
                        break
                    st = r[0]
                elif o == 'alloca':
                    a = mk('a', c, i['d'])
                    st.m.pop(a, None)
                    st.r[i['d']] = P(a, 0)
                elif o == 'call' or o == 'invoke':
                    res = self.do_call(fn, c, bi, k, i, st)
                    if o == 'call':
                        for kind, s2, v in res:
                            if kind == 'ret':
                                if 'd' in i:
                                    s2.r[i['d']] = v if v is not None else mk('s', ('uv',), c, self.curidx)
                                work.append((k + 1, s2))
                            else:
                                outcomes.append(('throw', s2, v))
                    else:
                        for kind, s2, v in res:
                            if kind == 'ret':
                                if 'd' in i:
                                    s2.r[i['d']] = v if v is not None else mk('s', ('uv',), c, self.curidx)
                                goto(bi, i['nb'], s2)
                            else:
                                s2.g['k_exc'] = v
                                goto(bi, i['ub'], s2)
                    break
                elif o == 'gep':
                    b = self.val(st, i['b'])
                    off = i['c']
                    for v, sc in i['i']:
                        x = st.resolve(self.val(st, v))
                        t = lin_add(off, x, sc)
                        off = t if t is not None else mk('op', 'gepoff', x, sc, 64)
                    st.r[i['d']] = self.padd(st, b, off)
                elif o == 'br':
                    if 'fb' not in i:
                        goto(bi, i['tb'], st)
                        break
                    cnd = self.val(st, i['c'])
                    cst = st.const(cnd) if isinstance(cnd, V) else cnd
                    if isinstance(cst, int):
                        goto(bi, i['tb'] if cst & 1 else i['fb'], st)
                        break
                    s2 = st.copy()
                    if assume(st, cnd, True) and self.models.refine(st, cnd, True) and self.mon.branch(st, cnd, True) is not False:
                        goto(bi, i['tb'], st)
                    self.curins = i
                    if assume(s2, cnd, False) and self.models.refine(s2, cnd, False) and self.mon.branch(s2, cnd, False) is not False:
                        goto(bi, i['fb'], s2)
                    break
                elif o == 'switch':
                    self.do_switch(fn, bi, i, st, goto)
                    break
                elif o == 'icmp':
                    x, y = st.resolve(self.val(st, i['x'])), st.resolve(self.val(st, i['y']))
                    st.r[i['d']] = self.icmp(st, i['p'], x, y, i['cw'])
                elif o == 'bin':
                    x, y = st.resolve(self.val(st, i['x'])), st.resolve(self.val(st, i['y']))
                    st.r[i['d']] = self.binop(st, i['op'], x, y, i['w'], i.get('nsw') or i.get('nuw'))
                elif o == 'cast':
                    x = st.resolve(self.val(st, i['x']))
                    st.r[i['d']] = self.cast(st, i['op'], x, i['fw'], i['w'])
                elif o == 'phi':
                    pass
                elif o == 'select':
                    cnd = self.val(st, i['c'])
                    cst = st.const(cnd) if isinstance(cnd, V) else cnd
                    if isinstance(cst, int):
                        st.r[i['d']] = self.val(st, i['x'] if cst & 1 else i['y'])
                    else:
                        s2 = st.copy()
                        if assume(s2, cnd, False):
                            s2.r[i['d']] = self.val(s2, i['y'])
                            work.append((k + 1, s2))
                        if not assume(st, cnd, True):
                            break
                        st.r[i['d']] = self.val(st, i['x'])
                elif o == 'ret':
                    v = self.val(st, i['v']) if 'v' in i else None
                    outcomes.append(('ret', st, v))
                    break
                elif o == 'resume':
                    x = st.g.get('k_exc2', ())
                    st.g['k_exc2'] = x[:-1]
                    outcomes.append(('throw', st, x[-1] if x else None))
                    break
                elif o == 'unreachable':
                    break
                elif o == 'landingpad':
                    e = st.g.pop('k_exc', None)
                    sel = self.landing(i, e)
                    if sel is None:
                        outcomes.append(('throw', st, e))
                        break
                    st.g['k_exc2'] = st.g.get('k_exc2', ()) + (e,)
                    st.r[i['d']] = mk('agg', (mk('exc', e), sel))
                elif o == 'extractvalue':
                    a = self.val(st, i['v'])
                    if isinstance(a, V) and a.tag == 'agg' and len(i['i']) == 1 and i['i'][0] < len(a.a[0]):
                        st.r[i['d']] = a.a[0][i['i'][0]]
                    elif isinstance(a, V) and a.tag == 'op' and a.a[0] == 'pk' and a.a[2] == 16 and i['i'] in ([0], [1]) and all(k + n <= 8 or k >= 8 for k, n, _ in a.a[1]):
                        h = 8 * i['i'][0]
                        xs = tuple((k - h, n, x) for k, n, x in a.a[1] if h <= k < h + 8)
                        st.r[i['d']] = xs[0][2] if len(xs) == 1 else mk('op', 'pk', xs, 8)
                    else:
                        st.r[i['d']] = mk('s', ('uv',), c, self.curidx)
                elif o == 'insertvalue':
                    a = self.val(st, i['v'])
                    xs = list(a.a[0]) if isinstance(a, V) and a.tag == 'agg' else []
                    while len(xs) <= i['i'][0]:
                        xs.append(0)
                    xs[i['i'][0]] = self.val(st, i['e'])
                    st.r[i['d']] = mk('agg', tuple(xs))
                else:
                    if 'd' in i:
                        st.r[i['d']] = st.fresh(('ot', c, self.curidx), 'v')
                k += 1

    def padd(self, st, b, off):
        if isP(b):
            if off == 0 and isinstance(off, int):
                return b
            if b.a[0].tag == 'el':
                return self.models.elem_add(st, b, off)
            t = lin_add(b.a[1], off)
            return P(b.a[0], t if t is not None else mk('op', 'padd', b.a[1], off, 64))
        if isinstance(b, V):
            c = st.const(b)
            if isP(c):
                return self.padd(st, c, off)
            if off == 0 and isinstance(off, int):
                return b
            return mk('op', 'ptradd', b, off, 64)
        if isinstance(off, int):
            return b + off
        return mk('op', 'ptradd', b, off, 64)

    def icmp(self, st, p, x, y, w):
        m = self.models.cmp(st, p, x, y)
        if m is not None:
            return m
        e = eval_cmp(st, p, x, y, w)
        if e is not None:
            return 1 if e else 0
        # bool tests
        if w == 8 or w == 1:
            for a, b in ((x, y), (y, x)):
                if isinstance(b, int) and b == 0 and isinstance(a, V) and a.tag == 'op' and a.a[0] in ('icmp', 'not', 'streq', 'bool'):
                    if p == 'ne':
                        return a
                    if p == 'eq':
                        return mk('op', 'not', a, 1)
        # canonical order: constants on the right
        if isinstance(x, int) and isinstance(y, V):
            x, y, p = y, x, SWAP[p]
        v = mk('op', 'icmp', p, x, y, w)
        f = st.f.get(v)
        if f is not None and f[0] == 'set' and len(f[1]) == 1:
            return next(iter(f[1]))
        inv = st.f.get(mk('op', 'icmp', INV[p], x, y, w))
        if inv is not None and inv[0] == 'set' and len(inv[1]) == 1:
            return 1 - next(iter(inv[1]))
        return v

    def binop(self, st, op, x, y, w, nowrap):
        if isinstance(x, int) and isinstance(y, int):
            ux, uy = uns(x, w), uns(y, w)
            if op == 'add': return sgn(x + y, w)
            if op == 'sub': return sgn(x - y, w)
            if op == 'mul': return sgn(x * y, w)
            if op == 'and': return sgn(ux & uy, w)
            if op == 'or': return sgn(ux | uy, w)
            if op == 'xor': return sgn(ux ^ uy, w)
            if op == 'shl': return sgn(ux << uy, w) if uy < w else 0
            if op == 'lshr': return sgn(ux >> uy, w) if uy < w else 0
            if op == 'ashr': return sgn(x >> min(uy, w - 1), w)
            if y:
                if op == 'udiv': return sgn(ux // uy, w)
                if op == 'urem': return sgn(ux % uy, w)
                if op == 'sdiv':
                    q = abs(x) // abs(y)
                    return sgn(q if (x < 0) == (y < 0) else -q, w)
                if op == 'srem':
                    q = abs(x) % abs(y)
                    return sgn(q if x >= 0 else -q, w)
        if w == 1:
            if op == 'xor' and isinstance(y, int):
                return x if y == 0 else self.neg(x)
            if op == 'and':
                if isinstance(y, int): return x if y else 0
                if isinstance(x, int): return y if x else 0
            if op == 'or':
                if isinstance(y, int): return 1 if y else x
                if isinstance(x, int): return 1 if x else y
            return mk('op', 'bool', op, x, y, 1)
        if op in ('add', 'sub'):
            if isinstance(x, V) and x.tag == 'P' or isinstance(y, V) and y.tag == 'P':
                if op == 'sub' and isP(x) and isP(y) and x.a[0] is y.a[0]:
                    r = lin_add(x.a[1], y.a[1], -1)
                    if r is not None:
                        return r
                return mk('op', op, x, y, w)
            if op == 'add' and all(isinstance(q, V) and q.tag == 'op' and q.a[0] in ('zext', 'bitcat') for q in (x, y)):
                # numbers put together from bytes
                ba, bb = self.bits(st, x, w), self.bits(st, y, w)
                if all(isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0 for a, b in zip(ba, bb)):
                    return mk('op', 'bitcat', tuple(b if isinstance(a, int) and a == 0 else a for a, b in zip(ba, bb)), w)
            ok = w == 64 or nowrap
            r = lin_add(x, y, 1 if op == 'add' else -1)
            if r is not None:
                if not ok and isinstance(r, V):
                    lo, hi = r_bounds(st.range(r))
                    wr = width_range(w)
                    ok = lo is not None and hi is not None and lo >= wr[1] and hi <= wr[2]
                if ok:
                    return r
        if op == 'mul' and (w == 64 or nowrap):
            if isinstance(x, int):
                x, y = y, x
            if isinstance(y, int):
                lp = lin_parts(x)
                if lp is not None and abs(y) < 1 << 20:
                    return lin_make([(s, k * y) for s, k in lp[0]], lp[1] * y)
        if op in ('and', 'or', 'add', 'xor', 'mul') and isinstance(x, int):
            x, y = y, x
        if op == 'and' and isinstance(y, int):
            if y == 0:
                return 0
            bits = self.bits(st, x, w)
            r = self.frombits([b if uns(y, w) >> i & 1 else 0 for i, b in enumerate(bits)], w)
            if r is not None:
                return r
        if op in ('lshr', 'shl', 'ashr') and isinstance(y, int) and 0 <= y < w:
            if y == 0:
                return x
            bits = self.bits(st, x, w)
            nb = bits[y:] + [0 if op == 'lshr' else bits[-1]] * y if op != 'shl' else [0] * y + bits[:w - y]
            r = self.frombits(nb, w)
            if r is not None:
                return r
            if op == 'shl' and (nowrap or w == 64) and y <= 8:
                pass
        if op in ('or', 'add', 'xor'):
            ba, bb = self.bits(st, x, w), self.bits(st, y, w)
            if all(a == 0 or b == 0 for a, b in zip(ba, bb)):
                r = self.frombits([b if isinstance(a, int) and a == 0 else a for a, b in zip(ba, bb)], w)
                if r is not None:
                    return r
                return mk('op', 'bitcat', tuple(b if isinstance(a, int) and a == 0 else a for a, b in zip(ba, bb)), w)
        return mk('op', op, x, y, w)

    def neg(self, x):
        if isinstance(x, int):
            return 1 - (x & 1)
        if x.tag == 'op' and x.a[0] == 'not':
            return x.a[1]
        if x.tag == 'op' and x.a[0] == 'icmp':
            return mk('op', 'icmp', INV[x.a[1]], x.a[2], x.a[3], x.a[4])
        return mk('op', 'not', x, 1)

    # bit-level views: each bit is 0, 1 or ('b', value, index)
    def bits(self, st, v, w):
        if isinstance(v, int):
            return [v >> i & 1 for i in range(w)]
        if v.tag == 'op':
            op = v.a[0]
            if op == 'bitcat':
                b = list(v.a[1])
                return b[:w] + ([b[-1]] * (w - len(b)))
            if op == 'zext':
                b = self.bits(st, v.a[1], v.a[3])
                return (b + [0] * w)[:w]
            if op == 'trunc':
                return self.bits(st, v.a[1], 64)[:w] if False else [mkbit(v.a[1], i) for i in range(w)] if not (isinstance(v.a[1], V) and v.a[1].tag == 'op') else (self.bits(st, v.a[1], v.a[3]) + [0] * w)[:w]
            if op in ('icmp', 'not', 'streq', 'bool'):
                return ([mkbit(v, 0)] + [0] * w)[:w]
        lo, hi = r_bounds(st.range(v))
        n = w
        if lo is not None and hi is not None and lo >= 0:
            n = min(w, hi.bit_length())
        return [mkbit(v, i) for i in range(n)] + [0] * (w - n)

    def frombits(self, bits, w):
        """A plain value for a vector of bits, if there is one."""
        bits = list(bits[:w]) + [0] * (w - len(bits))
        if all(isinstance(b, int) for b in bits):
            return sgn(sum(b << i for i, b in enumerate(bits)), w)
        # value bits 0..n-1 of one source followed by zeros, covering the whole source
        src = bits[0]
        if isinstance(src, V) and src.a[1] == 0:
            v = src.a[0]
            n = 0
            while n < w and isinstance(bits[n], V) and bits[n].a[0] is v and bits[n].a[1] == n:
                n += 1
            if all(isinstance(b, int) and b == 0 for b in bits[n:]):
                if v.tag == 'op' and v.a[0] in ('icmp', 'not', 'streq', 'bool'):
                    return v
                return mk('op', 'bitcat', tuple(bits), w)
        return mk('op', 'bitcat', tuple(bits), w)

    def cast(self, st, op, x, fw, w):
        if isinstance(x, int):
            if op == 'zext': return sgn(uns(x, fw), w)
            if op == 'sext': return -1 if fw == 1 and x & 1 else sgn(x, fw) if fw > 1 else x
            if op == 'trunc': return sgn(x, w) if w > 1 else x & 1
            return x
        if op == 'sext':
            if fw == 1:
                return mk('op', 'sext1', x, w)
            return x
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            return x
        if x.tag not in ('s', 'lin', 'op'):
            return x
        isbool = x.tag == 'op' and x.a[0] in ('icmp', 'not', 'streq', 'bool')
        if op == 'zext':
            if fw == 1 or isbool:
                return x
            lo, hi = r_bounds(st.range(x))
            if lo is not None and lo >= 0:
                return x
            if x.tag == 'op' and x.a[0] == 'bitcat':
                return mk('op', 'bitcat', tuple((list(x.a[1])[:fw] + [0] * w)[:w]), w)
            return mk('op', 'zext', x, fw if False else w, fw)  # args: value, result width, source width
        if op == 'trunc':
            if isbool:
                return x
            lo, hi = r_bounds(st.range(x))
            if w == 1:
                if lo is not None and hi is not None and lo >= 0 and hi <= 1:
                    return x
                return mk('op', 'icmp', 'ne', mk('op', 'and', x, 1, 8), 0, 8) if False else mk('op', 'trunc', x, 1, fw)
            wr = width_range(w)
            if lo is not None and hi is not None and lo >= wr[1] and hi <= wr[2]:
                return x
            if x.tag == 'op' and x.a[0] == 'bitcat':
                return mk('op', 'bitcat', tuple(list(x.a[1])[:w]), w)
            return mk('op', 'trunc', x, w, fw)
        return mk('op', op, x, w, fw)

    def do_switch(self, fn, bi, i, st, goto):
        v = st.resolve(self.val(st, i['v']))
        w = None
        if isinstance(v, int):
            for cst, t in i['cs']:
                if sgn(cst, 64) == v or sgn(cst, 32) == v or sgn(cst, 8) == v:
                    goto(bi, t, st)
                    return
            goto(bi, i['db'], st)
            return
        rest = st
        for cst, t in i['cs']:
            cv = sgn(cst, 32)
            s2 = rest.copy()
            if assume_cmp(s2, 'eq', v, cv, 32) and self.models.refine(s2, mk('op', 'icmp', 'eq', v, cv, 32), True) and self.mon.branch(s2, mk('op', 'icmp', 'eq', v, cv, 32), True) is not False:
                goto(bi, t, s2)
            rest = rest.copy()
            if not assume_cmp(rest, 'ne', v, cv, 32) or self.mon.branch(rest, mk('op', 'icmp', 'eq', v, cv, 32), False) is False:
                return
        goto(bi, i['db'], rest)

    # ------------------------------------------------------------ exceptions
    def landing(self, i, e):
        """Selector value at a landing pad for exception type e, or None if it does not stop here."""
        for cl in i['cl']:
            if cl[0] == 'filter':
                return -1
            t = cl[1]
            if isinstance(t, int):
                return mk('ti', 'all')
            name = t.a[0].a[0] if isP(t) else str(t)
            if exc_matches(e, name):
                return mk('ti', name)
        return 0 if i.get('cleanup') else None

    def caught(self, e):
        for cls in reversed(self.handlers):
            for n in cls:
                if n == 'all' or n == 'filter' or exc_matches(e, n):
                    return True
        return False

    def throw(self, st, e):
        """Outcomes of throwing an exception of type e."""
        self.mon.event(st, 'throw', type=e)
        if self.caught(e):
            return [('throw', st, e)]
        self.end(st, 'terminate', None)
        return []

    def end(self, st, how, status):
        self.mon.count('process ends')
        self.mon.end(st, how, status)

    # ------------------------------------------------------------ calls
    def is_opaque(self, f):
        n = f.name
        if n in self.opaque_exact:
            return True
        return bool(self.opaque_pre) and n.startswith(self.opaque_pre)

    def do_call(self, fn, c, bi, k, i, st):
        """Outcomes [(kind, state, value)] of a call instruction."""
        callee = i['fn']
        if callee[0] == 'r':
            t = st.resolve(self.val(st, callee))
            if isinstance(t, V) and t.tag == 'F':
                name = t.a[0]
            else:
                r = st.range(t) if isinstance(t, V) else None
                if r is not None and r[0] == 'set' and r[1] and all(isinstance(x, V) and x.tag == 'F' for x in r[1]):
                    out = []
                    for x in r[1]:
                        s2 = st.copy()
                        s2.f[t] = R_set(x)
                        out += self.call_fn(fn, c, bi, k, i, s2, x.a[0])
                    return out
                return self.models.indirect(st, i, t)
        elif callee[0] == 'c' and isinstance(callee[1], V) and callee[1].tag == 'F':
            name = callee[1].a[0]
        else:
            return self.models.indirect(st, i, None)
        return self.call_fn(fn, c, bi, k, i, st, name)

    def call_fn(self, fn, c, bi, k, i, st, name):
        self.steps += 1
        f = self.p.fns[name]
        args = [self.val(st, a['v']) for a in i['a']]
        hs = False
        if i['o'] == 'invoke':
            lp = next((x for x in fn.blocks[i['ub']] if x['o'] == 'landingpad'), None)
            cl = []
            if lp:
                for x in lp['cl']:
                    if x[0] == 'filter':
                        cl.append('filter')
                    else:
                        t = x[1]
                        cl.append('all' if isinstance(t, int) else (t.a[0].a[0] if isP(t) else str(t)))
            self.handlers.append(cl)
            hs = True
        try:
            r = self.mon.call(st, f, args, i)
            if r is not None:
                return [x if len(x) == 3 else ('ret', x[0], x[1]) for x in r]
            if self.mon.split and f.cls == 'Process' and f.meth == 'run' and self.stack:
                return self.split_call(f, c, (bi, k), i, st, args)
            if f.user and not self.is_opaque(f) and not self.models.override(f):
                return self.call_user(f, c, (bi, k), i, st, args)
            return self.models.call(st, f, args, i, c, (bi, k))
        finally:
            if hs:
                self.handlers.pop()

    def run_memo(self, f, st, args, c, site):
        """Joins the states that reach a function in the same calling context and key; reuses the outcomes when nothing is new."""
        self.decode(f)
        ck = self.callkey(st)
        cc = self.ctx(c, site)
        st.r = {n: a for n, a in enumerate(args)}
        sk = self.statekey(st, f, 0)
        if len(f.blocks) > 100:
            vis = (f.sym, tuple(args), sk)
            for c2, mem in self.dead.get(vis, ()):
                if c2 != cc and mem == {k: o.c for k, o in st.m.items() if k.tag in ('g', 'sp')}:
                    return []
            visible = {k: o.c for k, o in st.m.items() if k.tag in ('g', 'sp')}
        key = (cc, tuple(self.keystack), ck, sk)
        e = self.entries.get(key)
        s0 = ('e', cc, hash_key(key))
        if e is None:
            if st.has_site(s0):
                st.retire(s0)
            gc(st)
            e = self.entries[key] = [st, None, 0]
        else:
            j = join(e[0], st, s0, e[2] > 6, self.initial, self.mon.numeric)
            if j is e[0] and e[1] is not None:
                return [(k, s.copy(), v) for k, s, v in e[1]]
            if j is not e[0]:
                e[2] += 1
                if e[2] > 60:
                    raise AnalysisError('no convergence at entry of ' + f.name)
            e[0] = j
        e[1] = None
        s = e[0].copy()
        r = dict(s.r)
        self.keystack.append(hash_key(ck))
        try:
            out = self.run(f, s, [r.get(n, args[n]) for n in range(len(args))], c, site)
        finally:
            self.keystack.pop()
        e[1] = out
        if not out and len(f.blocks) > 100 and e[2] == 0:
            self.dead.setdefault(vis, []).append((cc, visible))
        return [(k, s.copy(), v) for k, s, v in out]

    def split_call(self, f, c, site, i, st, args):
        """Records the entry state; the function is analysed by run_split()."""
        g = st.g
        key = (f.sym, tuple([g[x] for x in sorted(x for x in g if x[0] == 'k')]), self.mon.key(st))
        cc = self.ctx(c, site)
        o = st.copy()
        o.r = {n: a for n, a in enumerate(args)}
        cur = self.splits.get(key)
        s0 = ('sp', cc, hash_key(key))
        stack = list(self.stack)
        if cur is None:
            if o.has_site(s0):
                o.retire(s0)
            self.splits[key] = [o, stack, 0, cc, i]
        else:
            cur[2] += 1
            cur[0] = join(cur[0], o, s0, cur[2] > 6, self.initial, self.mon.numeric)
        self.mon.post(st, 'Process::run', args, None, False)
        out = [('ret', st.copy(), None)]
        out += self.throw(st, '_ZTISt13runtime_error')
        return out

    def run_split(self):
        for key, (o, stack, n, cc, i) in list(self.splits.items()):
            f = self.p.fns[key[0]]
            self.stack = stack
            self.handlers = [['all']]
            self.mon.count('handler entry states')
            args = [o.r[k] for k in sorted(o.r)]
            self.curins = i
            for kind, s2, v in self.run(f, o.copy(), args, cc, 'split'):
                self.mon.split_end(s2, kind)
            self.stack = []
            self.handlers = []

    def callkey(self, st):
        rk = []
        for r, v in st.r.items():
            if isinstance(v, V):
                v = st.const(v)
                if v is not None and isinstance(v, V) and v.tag in ('S', 'agg'):
                    v = None
            if v is not None:
                rk.append((r, v))
        rk.sort(key=lambda t: t[0])
        return tuple(rk)

    def call_user(self, f, c, site, i, st, args):
        # by-value aggregates are copied
        args = list(args)
        for n, a in enumerate(i['a']) if i else ():
            if a.get('byval'):
                o = mk('a', self.ctx(c, site), ('byval', n))
                st.m.pop(o, None)
                self.models.copy_region(st, args[n], P(o, 0), a['byval'])
                args[n] = P(o, 0)
        live = st.r
        cf = mk('fr', c)
        saved = st.m.get(cf)
        st.m[cf] = Obj({k: (8, v) for k, v in live.items()})
        out = []
        for kind, s2, v in self.run_memo(f, st, args, c, site):
            o = s2.m.pop(cf, None)
            s2.r = {k: x[1] for k, x in o.c.items()} if o else {}
            if saved is not None:
                s2.m[cf] = saved
            out.append((kind, s2, v))
        return out


def mkbit(v, i):
    return mk('b', v, i)


_hk = {}


def hash_key(k):
    n = _hk.get(k)
    if n is None:
        n = len(_hk)
        _hk[k] = n
    return n


EXC_BASES = {
    '_ZTISt13runtime_error': {'_ZTISt9exception'},
    '_ZTISt16invalid_argument': {'_ZTISt11logic_error', '_ZTISt9exception'},
    '_ZTISt12out_of_range': {'_ZTISt11logic_error', '_ZTISt9exception'},
    '_ZTISt12length_error': {'_ZTISt11logic_error', '_ZTISt9exception'},
    '_ZTISt11logic_error': {'_ZTISt9exception'},
    '_ZTISt12domain_error': {'_ZTISt11logic_error', '_ZTISt9exception'},
    '_ZTISt11range_error': {'_ZTISt13runtime_error', '_ZTISt9exception'},
    '_ZTISt14overflow_error': {'_ZTISt13runtime_error', '_ZTISt9exception'},
    '_ZTISt12system_error': {'_ZTISt13runtime_error', '_ZTISt9exception'},
    '_ZTISt9bad_alloc': {'_ZTISt9exception'},
}


def exc_matches(e, name):
    return name == e or name in EXC_BASES.get(e, ())


def short(p):
    i = p.rfind('/src/')
    return p[i + 1:] if i >= 0 else p
