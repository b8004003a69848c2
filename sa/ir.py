"""Builds /repo's current sources to LLVM IR and loads the exported program."""
import hashlib, json, os, re, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('K8PSH_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')


def canon(n):
    n = n.replace('[abi:cxx11]', '')
    for a, b in (('std::__cxx11::', 'std::'), ('(anonymous namespace)::', '')):
        n = n.replace(a, b)
    n = n.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char> >', 'string')
    n = n.replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')
    n = re.sub(r'\bunsigned long\b', 'size_t', n)
    while '> >' in n:
        n = n.replace('> >', '>>')

    def strip(n, pat):
        while True:
            i = n.find(pat)
            if i < 0:
                return n
            j = i + len(pat)
            d = 1
            while d:
                d += (n[j] == '<') - (n[j] == '>')
                j += 1
            n = n[:i] + n[j:]
    for p in (', std::allocator<', ', std::hash<', ', std::equal_to<', ', std::char_traits<', ', std::default_delete<'):
        n = strip(n, p)
    n = re.sub(r'\bstd::', '', n).replace('k8psh::', '')
    while '> >' in n:
        n = n.replace('> >', '>>')
    return n


def split_name(n):
    """canonical demangled name -> (class or '', method, args)"""
    # cut the argument list: last top-level '(' ... ')'
    d = 0
    end = n.rfind(')')
    args = ''
    base = n
    if end >= 0:
        i = end
        while i >= 0:
            c = n[i]
            if c == ')':
                d += 1
            elif c == '(':
                d -= 1
                if d == 0:
                    break
            i -= 1
        args = n[i + 1:end]
        base = n[:i]
    # strip template args at the end of base
    tmpl = ''
    if base.endswith('>') and not re.search(r'operator(->|>>|>|<=>|>=)$', base):
        d = 0
        i = len(base) - 1
        while i >= 0:
            if base[i] == '>':
                if i and base[i - 1] == '-':
                    pass
                else:
                    d += 1
            elif base[i] == '<':
                d -= 1
                if d == 0:
                    break
            i -= 1
        tmpl = base[i + 1:-1]
        base = base[:i]
    # find the last top-level '::'; drop the return type (top-level space)
    d = 0
    last = -1
    start = 0
    i = 0
    while i < len(base):
        if base.startswith('operator', i) and (i == 0 or not (base[i - 1].isalnum() or base[i - 1] == '_')):
            break
        c = base[i]
        if c in '<({':
            d += 1
        elif c in '>)}':
            d -= 1
        elif d == 0 and c == ' ':
            start = i + 1
            last = -1
        elif d == 0 and base.startswith('::', i):
            last = i
            i += 1
        i += 1
    if last < 0:
        return '', base[start:], args, tmpl
    return base[start:last], base[last + 2:], args, tmpl


class Fn:
    __slots__ = ('sym', 'name', 'cls', 'meth', 'args', 'tmpl', 'blocks', 'params', 'file', 'line', 'user', 'ret', 'noreturn', 'src',
                 'rpo', 'preds', 'livein', 'loophead', 'nregs', 'backtargets', 'retcell', 'unroll', 'flags')


def cint(v):
    """The value of an integer constant operand."""
    if v[0] == 'c':
        return v[1] if isinstance(v[1], int) else None
    if v[0] == 'i':
        x, w = int(v[2]), v[1]
        return x - (1 << w) if w > 1 and x >= 1 << (w - 1) else x
    return None


def _w(t):
    return int(t[1:]) if t[0] == 'i' and t[1:].isdigit() else 64


class Program:
    def __init__(self, path):
        m = json.load(open(path))
        self.globals = m['globals']
        self.enums = m.get('enums', {})
        self.fns = {}
        for k, f in m['functions'].items():
            n = Fn()
            n.sym = k
            n.name = canon(f['name'])
            n.cls, n.meth, n.args, n.tmpl = split_name(n.name)
            n.params = f['params']
            n.file = f.get('file') or ''
            n.line = f.get('line') or 0
            n.src = f.get('src', '')
            n.ret = f['ret']
            n.noreturn = f['noreturn']
            n.blocks = f['blocks']
            n.user = bool(n.blocks) and (n.file.startswith(REPO + '/') or '/repo/' in n.file)
            n.rpo = None
            self.fns[k] = n
        self.user = [f for f in self.fns.values() if f.user]

    def prep(self, f):
        """CFG facts: RPO numbers, predecessors, loop heads, live-in registers, decoded operands."""
        if f.rpo is not None:
            return f
        nb = len(f.blocks)
        succ = [[] for _ in range(nb)]
        for bi, b in enumerate(f.blocks):
            t = b[-1]
            o = t['o']
            if o == 'br':
                succ[bi] = [t['tb']] + ([t['fb']] if 'fb' in t else [])
            elif o == 'switch':
                succ[bi] = [t['db']] + [c[1] for c in t['cs']]
            elif o == 'invoke':
                succ[bi] = [t['nb'], t['ub']]
        seen = set()
        post = []
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        onstack = {0}
        f.loophead = set()
        while stack:
            u, it = stack[-1]
            for v in it:
                if v in onstack:
                    f.loophead.add(v)
                if v not in seen:
                    seen.add(v)
                    onstack.add(v)
                    stack.append((v, iter(succ[v])))
                    break
            else:
                stack.pop()
                onstack.discard(u)
                post.append(u)
        f.rpo = {b: i for i, b in enumerate(reversed(post))}
        f.preds = {b: set() for b in range(nb)}
        for u in seen:
            for v in succ[u]:
                f.preds[v].add(u)
        # liveness of registers at block entry (phi operands are used on edges)
        use = [set() for _ in range(nb)]
        dfn = [set() for _ in range(nb)]
        phiuse = {}

        def op(bi, v):
            if v[0] == 'r' and v[1] not in dfn[bi]:
                use[bi].add(v[1])
        for bi, b in enumerate(f.blocks):
            for i in b:
                if i['o'] == 'phi':
                    for v, fb in i['in']:
                        if v[0] == 'r':
                            phiuse.setdefault(fb, set()).add(v[1])
                else:
                    for k in ('p', 'v', 'b', 'c', 'x', 'y', 'e', 'fn'):
                        v = i.get(k)
                        if isinstance(v, list) and v and isinstance(v[0], str):
                            op(bi, v)
                    if i['o'] == 'gep':
                        for v, _ in i['i']:
                            op(bi, v)
                    if 'a' in i and isinstance(i['a'], list):
                        for a in i['a']:
                            if isinstance(a, dict):
                                op(bi, a['v'])
                    for v in i.get('ops', ()):
                        op(bi, v)
                if 'd' in i:
                    dfn[bi].add(i['d'])
                if 't' in i:
                    i['w'] = _w(i['t'])
                if 'ct' in i:
                    i['cw'] = _w(i['ct'])
                if 'ft' in i:
                    i['fw'] = _w(i['ft'])
        live = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for u in post:
                out = set(phiuse.get(u, ()))
                for v in succ[u]:
                    out |= live[v]
                new = use[u] | (out - dfn[u])
                if new != live[u]:
                    live[u] = new
                    ch = True
        # loops that count up to a small constant are unrolled: the block that begins one -> the counters in memory
        f.unroll = {}
        allocas = {i['d'] for i in f.blocks[0] if i['o'] == 'alloca'}
        for h in f.loophead:
            body, todo = {h}, [u for u in f.preds[h] if f.rpo[u] >= f.rpo[h]]
            while todo:
                u = todo.pop()
                if u not in body:
                    body.add(u)
                    todo.extend(f.preds[u])
            cmp, step = {}, {}
            for u in body:
                ld, by = {}, {}
                for i in f.blocks[u]:
                    if i['o'] == 'load' and i['p'][0] == 'r' and i['p'][1] in allocas:
                        ld[i['d']] = i['p'][1]
                    elif i['o'] == 'cast' and i['x'][0] == 'r' and i['x'][1] in ld:
                        ld[i['d']] = ld[i['x'][1]]
                    elif i['o'] == 'icmp':
                        for x, y in ((i['x'], i['y']), (i['y'], i['x'])):
                            if x[0] == 'r' and cint(y) is not None:
                                if x[1] in ld:
                                    cmp.setdefault(ld[x[1]], set()).add(abs(cint(y)))
                                elif x[1] in by:
                                    cmp.setdefault(by[x[1]][0], set()).add(abs(cint(y)))
                    elif i['o'] == 'bin' and i['op'] in ('add', 'sub') and i['x'][0] == 'r' and i['x'][1] in ld and cint(i['y']):
                        by[i['d']] = (ld[i['x'][1]], abs(cint(i['y'])))
                    elif i['o'] == 'store' and i['p'][0] == 'r' and i['v'][0] == 'r' and by.get(i['v'][1], (None,))[0] == i['p'][1]:
                        step.setdefault(i['p'][1], set()).add(by[i['v'][1]][1])
            for a, cs in cmp.items():
                s = step.get(a)
                if s and len(s) == 1 and min(cs) <= 8 * min(s):
                    f.unroll.setdefault(h, {})[a] = 8 * min(s)
        f.unroll = {h: sorted(a.items()) for h, a in f.unroll.items()}
        # truth values returned by calls and kept in a variable: paths are told apart by them while the variable is in use
        f.flags = {}
        calls = {i['d'] for b in f.blocks for i in b if i['o'] in ('call', 'invoke') and 'd' in i and i.get('t') == 'i1'}
        z = {i['d'] for b in f.blocks for i in b if i['o'] == 'cast' and i['op'] == 'zext' and i['x'][0] == 'r' and i['x'][1] in calls} if calls else ()
        for a in sorted({i['p'][1] for b in f.blocks for i in b if i['o'] == 'store' and i['p'][0] == 'r' and i['p'][1] in allocas and i['v'][0] == 'r' and i['v'][1] in z}) if z else ():
            first = {}
            for bi, b in enumerate(f.blocks):
                for i in b:
                    if i['o'] in ('load', 'store') and i['p'] == ['r', a]:
                        first[bi] = i['o']
                        break
            todo, lv = [bi for bi, o in first.items() if o == 'load'], set()
            while todo:
                u = todo.pop()
                if u not in lv:
                    lv.add(u)
                    todo.extend(q for q in f.preds.get(u, ()) if first.get(q) != 'store')
            for u in lv:
                f.flags.setdefault(u, []).append(a)
        f.livein = []
        f.retcell = {}
        for bi, b in enumerate(f.blocks):
            # blocks that return a truth value kept in memory: the paths to it are told apart by that value
            if b[-1]['o'] == 'ret' and bi:
                for i in b:
                    if i['o'] == 'load' and i['t'] in ('i1', 'i8') and i['p'][0] == 'r' and b[-1].get('v') == ['r', i['d']]:
                        f.retcell[bi] = i['p'][1]
            f.livein.append(frozenset(live[bi] | {i['d'] for i in b if i['o'] == 'phi'}))
        return f


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for x in sorted(fs):
            out.append(os.path.join(d, x))
    return sorted(out)


def _sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write('command failed: %s\n%s\n' % (' '.join(cmd), r.stdout[-3000:]))
        raise SystemExit(3)


def exporter():
    src = os.path.join(VERIF, 'tools', 'irdump.cxx')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(CACHE, 'irdump-' + h)
    if not os.path.exists(exe):
        os.makedirs(CACHE, exist_ok=True)
        tmp = exe + '.%d' % os.getpid()
        _sh(['clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++', '-O1', '-std=c++17', '-I/usr/lib/llvm-18/include', '-fno-rtti', src, '-o', tmp,
             '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        os.replace(tmp, exe)
    return exe


def build(flags=(), extra=None):
    """Compiles the current sources with the given flags; returns a Program."""
    h = hashlib.sha256()
    for s in sources():
        h.update(s.encode() + b'\0' + open(s, 'rb').read() + b'\0')
    h.update(repr((tuple(flags), extra)).encode())
    exe = exporter()
    h.update(exe.encode())
    out = os.path.join(CACHE, 'ir-' + h.hexdigest()[:20] + '.json')
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        with tempfile.TemporaryDirectory() as td:
            bc = os.path.join(td, 'm.bc')
            unit = os.path.join(REPO, 'src', 'k8psh.cxx')
            _sh(['clang++', '-std=c++11', '-w', *flags, '-O0', '-g', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', unit, '-o', bc])
            tmp = out + '.%d' % os.getpid()
            with open(tmp, 'w') as fo:
                r = subprocess.run([exe, bc], stdout=fo)
            if r.returncode:
                raise SystemExit(3)
            os.replace(tmp, out)
    return Program(out)
