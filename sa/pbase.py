"""Common parts of the property monitors."""
from val import *
from state import *
from interp import Mon, AnalysisError
import models as M

FORKED = ('handler', 'command', 'child')


class PMon(Mon):
    id = ''
    rule = ''
    need = {}            # statistic -> minimum number of distinct sites (or count): the anchors of the property
    runs_split = True
    shapes = False       # whether labels of strings describe how they are put together
    levels = ({},)       # attribute settings, from coarse to fine; an alarm counts only if the finest one raises it too

    assumes = ('the models of libc and the C++ library in sa/models.py and sa/libc.py', 'descriptors 0, 1 and 2 are open when a process starts',
               'a single thread per process; memory allocation does not fail')

    def run(self, cfg, budget):
        import driver
        driver.run_main(self, cfg, budget)
        self.finish()

    def finish(self):
        pass

    def coverage(self, stats):
        I = self.I
        return {'explanation': 'Abstract interpretation of the LLVM IR of /repo compiled on this run. Rule: %s. Functions analysed: %d, basic blocks reached: %d, block executions: %d, '
                               'calls interpreted: %d, joins: %d. Obligations: %s.' % (
                                   self.rule, len(I.visited), len(I.reached), I.blocks, I.steps, I.joins, ', '.join('%s: %s' % (k, v) for k, v in sorted(stats.items()))),
                'functions_analysed': len(I.visited), 'blocks_reached': len(I.reached), 'calls_interpreted': I.steps,
                'counts': dict(sorted(stats.items())), 'unmodelled_calls': sorted(str(x)[:120] for x in getattr(I.models, 'unknown', {}))[:40]}

    def role(self, st):
        return st.g.get('k_role', 'main')

    def ob(self, kind, st=None, x=None):
        """Counts an obligation site."""
        self.site(kind, x if x is not None else self.I.where())

    def pollset(self, st, p, n):
        """[(index, descriptor, events)] of a poll call"""
        out = []
        if not (isP(p) and isinstance(p.a[1], int)):
            return None
        cnt = n if isinstance(n, int) else None
        if cnt is None:
            lo, hi = r_bounds(st.range(n))
            cnt = hi if hi is not None and hi <= 16 else 8
        o = st.m.get(p.a[0])
        for x in range(cnt):
            off = p.a[1] + 8 * x
            if o is not None and not any(isinstance(q, int) and off <= q < off + 8 for q in o.c) and not (o.b and any(q <= off < q + b[0] for q, b in o.b.items())):
                break
            fd = st.resolve(self.I.load(st, P(p.a[0], off), 4, 32)[0][1])
            ev = st.resolve(self.I.load(st, P(p.a[0], off + 4), 2, 16)[0][1])
            out.append((x, fd, ev))
        return out

    def fds(self, st, v):
        """The descriptors a value may be; None if unknown."""
        v = st.resolve(v)
        if isinstance(v, int):
            return {v}
        if v.tag == 'fd':
            return {v}
        r = st.range(v)
        if r[0] == 'set':
            return set(r[1])
        return None

    def strarg(self, st, name, label):
        """A new unknown string object: (pointer, string)"""
        o = mk('h', mk('s', ('arg', name), 'obj'))
        v = mk('S', mk('s', ('arg', name), 'id'), mk('s', LN, mk('s', ('arg', name), 'id')), frozenset((label,)))
        st.m[o] = Obj({0: (32, v)})
        return P(o, 0), v

    def outarg(self, st, name):
        o = mk('h', mk('s', ('arg', name), 'obj'))
        st.m[o] = Obj({})
        return P(o, 0)

    def fn(self, prefix):
        """The function of the program with this (demangled) name, or None"""
        for f in self.I.p.fns.values():
            if f.blocks and f.name.startswith(prefix):
                return f
        return None

    def blocking(self, st, args):
        """Whether a poll call may wait."""
        t = args[2] if len(args) > 2 else -1
        c = st.const(st.resolve(t)) if isinstance(t, V) else t
        return not (isinstance(c, int) and c == 0)


def kind(x):
    return x.a[0] if isinstance(x, V) and x.tag == 'fd' else None


def bit_test(c, t):
    """A branch condition on a masked value: (value, mask, set?) or None."""
    while isinstance(c, V) and c.tag == 'op' and c.a[0] == 'not':
        c, t = c.a[1], not t
    if not (isinstance(c, V) and c.tag == 'op' and c.a[0] == 'icmp' and c.a[1] in ('eq', 'ne') and isinstance(c.a[3], int) and c.a[3] == 0):
        return None
    nz = (c.a[1] == 'ne') == t
    x = c.a[2]
    if not isinstance(x, V):
        return None
    mask = {}
    if x.tag == 'op' and x.a[0] == 'bitcat':
        bits = x.a[1]
    else:
        bits = None
    if bits is None:
        # and(value, mask)
        sh = x
        m = -1
        while isinstance(sh, V) and sh.tag == 'op' and sh.a[0] in ('and', 'zext', 'sext', 'trunc'):
            if sh.a[0] == 'and':
                if not isinstance(sh.a[2], int):
                    return None
                m &= sh.a[2]
            sh = sh.a[1]
        return ({sh: m}, nz)
    for b in bits:
        if isinstance(b, V):
            mask[b.a[0]] = mask.get(b.a[0], 0) | 1 << b.a[1]
    return (mask, nz)
