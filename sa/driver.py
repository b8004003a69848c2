"""Runs an analysis over the whole program or a single function."""
import gc, sys, time
gc.disable()
from val import *
from state import *
import ir
import interp as IT
from interp import Interp, Mon, AnalysisError

_progs = {}


def program(flags=()):
    flags = tuple(flags)
    if flags not in _progs:
        _progs[flags] = ir.build(flags)
    return _progs[flags]


def start_state(I):
    """State after the static constructors."""
    p = I.p
    st = State()
    st.g.update({'k_exc2': (), 'k_cat': (), 'k_role': 'main', 'k_acc': 0, ('k_' if 'daemon' in I.mon.keyed else '') + 'daemon': 0, 'mayopen': frozenset()})
    sts = [st]
    for f in sorted([f for f in p.fns.values() if f.sym.startswith('_GLOBAL__sub_I') and f.blocks], key=lambda f: f.sym):
        out = []
        for st in sts:
            for kind, s2, v in I.run(f, st, [], 0, ('init', f.sym)):
                if kind == 'ret':
                    s2.r = {}
                    out.append(s2)
        sts = out
    if not 1 <= len(sts) <= 8:
        raise AnalysisError('static initialisation')
    return sts


def run_main(mon, flags=(), budget=800):
    import state
    state.SHAPES = getattr(mon, 'shapes', False)
    state.AFFINE = getattr(mon, 'affine', False)
    p = program(flags)
    t0 = time.time()
    I = Interp(p, mon, budget)
    sts = start_state(I)
    f = next((f for f in p.fns.values() if f.name in ('main', 'main(int, char const**)') or f.sym == 'main'), None)
    if f is None:
        raise AnalysisError('no main')
    argc = mk('s', ('argc',), 'argc')
    for st in sts:
        st.f[argc] = R_iv(1, (1 << 31) - 1)
        mon.start(st)
        for kind, s2, v in I.run(f, st, [argc, P(mk('argv'), 0)], 0, 'main'):
            if kind == 'ret':
                I.end(s2, 'exit', v)
            else:
                I.end(s2, 'terminate', None)
    I.t_main = time.time() - t0
    if getattr(mon, 'runs_split', True):
        I.run_split()
    return I


if __name__ == '__main__':
    t0 = time.time()
    mon = Mon()
    import cProfile
    I = None
    if len(sys.argv) > 1 and sys.argv[1] == '-p':
        cProfile.run('I = run_main(mon)', '/tmp/w/prof')
    else:
        try:
            I = run_main(mon, budget=float(sys.argv[1]) if len(sys.argv) > 1 else 800)
        except AnalysisError as e:
            I = mon.I
            print('ERROR', e)
            for f in I.stack: print('  ', f[0].name[:80])
        if IT.DEBUG:
            for k, n in sorted(I.prof.items(), key=lambda t: -t[1])[:25]:
                print(n, k)
            tk = max(I.tabs.items(), key=lambda t: max([len(x) for x in t[1].values()] + [0]))[1]
            tk = max(tk.values(), key=len)
            for x in tk: print('  KEY', show(x))
            for k, t in sorted(I.tabs.items(), key=lambda t: -max([len(x) for x in t[1].values()] + [0]))[:12]:
                print(k, sorted(((len(x), b) for b, x in t.items()), reverse=True)[:6])
    print('time', time.time() - t0, 'blocks', I.blocks, 'joins', I.joins, 'ctxs', len(I.ctxinfo))
    print(mon.stats, getattr(I,'t_main',None))
    print('havoc', I.models.unknown)
