"""Property monitors (sixth part): what is executed, and with which environment."""
from pbase import *
from props5 import Wire, GH
from state import shapes
import libc as LC

STARTS = ('system', 'popen', 'posix_spawn', 'posix_spawnp')
LOOKUPS = ('find', 'at', 'operator[]', 'count', 'equal_range', 'contains')


def is_path(x, *pat):
    """Matches a path into the configuration: numbers are fields, '[]' elements; returns the element positions or None"""
    out = []
    for p in reversed(pat):
        if not isinstance(x, V):
            return None
        if p == '[]':
            if x.tag != 'e':
                return None
            out.append(x.a[1])
        else:
            if x.tag != 'f' or x.a[1] != p:
                return None
        x = x.a[0]
    return out[::-1] if x == mk('o', 'cfg') else None


class Request(Wire):
    """Knows what the server does with the parts of a request."""
    shapes = True
    OFF = {'hosts': 40, 'commands': 96, 'exec': 32 + 48, 'env': 32 + 72}

    def __init__(self):
        Wire.__init__(self)
        self.names, self.badnames = {}, {}

    def key(self, st):
        if self.role(st) != 'handler' or st.g.get('k_rep'):
            return ()
        t = self.gh(st, 0)
        return (st.const(t) if t is not None and st.g.get('k_dec') == 1 else None,)

    def decoded(self, st):
        v = self.gh(st, 8)
        st.put(GH, 40, 8, self.I.cast(st, 'zext', v, 32, 64) if isinstance(v, V) else v)

    def kindof(self, st):
        t = self.gh(st, 0)
        return st.const(t) if t is not None and st.g.get('k_dec') == 1 else None

    def whole(self, st, s):
        """Whether a string is exactly the content of the last message"""
        n = st.resolve(s.a[1])
        v = self.gh(st, 40)
        return shapes(s) <= {('in',), ()} and ('in',) in shapes(s) and v is not None and (n is v or n == v)

    def call(self, st, f, args, ins):
        if self.role(st) == 'handler' and f.meth in LOOKUPS and 'map<' in f.cls and len(args) > 1:
            p = st.resolve(args[0])
            if isP(p):
                m = self.I.models.gm(st, p)
                x = m.a[0]
                if is_path(x, self.OFF['hosts'], '[]', 32) is not None or is_path(x, self.OFF['commands']) is not None:
                    s = self.I.models.gs(st, args[1])
                    self.looked(st, s)
        return Wire.call(self, st, f, args, ins)

    def looked(self, st, s): pass


class C01(Request):
    id = 'C01'
    rule = ('the process of a request starts programs only with the exec calls, whose argument vector is the complete executable list of the command that was found in the commands of one host of the configuration '
            'under exactly the name received with START_COMMAND, followed only by strings received as COMMAND_ARGUMENT and a null pointer, and whose file is the first element of that vector; each '
            'COMMAND_ARGUMENT is appended at the end, whole and exactly once, before the next message is read')
    need = {'exec': 1, 'arguments appended': 1, 'commands looked up': 1}

    def looked(self, st, s):
        self.ob('commands looked up')
        if self.kindof(st) == 3 and self.whole(st, s):
            self.names.setdefault(s.a[0], 1)
        else:
            self.badnames[s.a[0]] = 'is looked up under a name that is not exactly the one received with the request'

    # ---- arguments
    def received_arg(self, s):
        return isinstance(s, V) and s.tag == 'S' and shapes(s) == {('in',)}

    def append(self, st, loc, cells):
        if self.role(st) == 'handler' and len(cells) == 1 and cells[0][:2] == (0, 32) and self.received_arg(cells[0][2]) and not st.g.get('k_rep'):
            s = cells[0][2]
            k = self.kindof(st)
            if k == 2:
                self.ob('arguments appended')
                if self.whole(st, s):
                    n = st.g.get('k_app', 0)
                    st.g['k_app'] = 2 if n else 1
                    if n:
                        self.bad(st, 'repeated', 'an argument can be appended more than once')
                else:
                    self.bad(st, 'cut', 'only a part of a received argument can be appended')
            elif k in (0, 1, 3):
                st.g['may_odd'] = frozenset(st.g.get('may_odd', ())) | {loc}
        return cells

    def insert(self, st, loc, at, segs):
        if self.role(st) == 'handler' and not st.g.get('k_rep') and any(s.tag == 'one' and len(s.a[0]) == 1 and s.a[0][0][:2] == (0, 32) and self.received_arg(s.a[0][0][2]) for s in segs):
            v, _ = self.I.models.container(st, loc)
            if at is None or v is None or not eval_cmp(st, 'eq', at, v.a[2], 64) is True:
                self.bad(st, 'order', 'a received argument can be inserted before others')

    def shrink(self, st, loc, v, what):
        if self.role(st) == 'handler' and st.g.get('k_dec') is not None and not st.g.get('k_rep'):
            for s in v.a[1]:
                if s.tag in ('one', 'any') and any(z == 32 and self.received_arg(x) for _, z, x in s.a[0] or ()):
                    self.bad(st, 'dropped', 'received arguments can be removed again')

    def newkind(self, st):
        self.settle(st)

    def settle(self, st):
        if self.role(st) == 'handler' and self.kindof(st) == 2 and st.g.get('k_app') != 1 and st.g.get('k_app') is not None:
            if st.g['k_app'] == 0:
                self.bad(st, 'dropped', 'a received argument can be left out')
        st.g['k_app'] = None

    def decoded(self, st):
        Request.decoded(self, st)
        if self.role(st) == 'handler' and not st.g.get('k_rep'):
            st.g['k_app'] = 0

    # ---- execution
    def pre(self, st, name, args):
        Wire.pre(self, st, name, args)
        r = self.role(st)
        if r not in FORKED and not (r == 'launcher'):
            return
        if name in STARTS:
            self.ob('exec')
            self.bad(st, 'other', 'a program can be started with %s' % name)
        elif name == 'fork' and r == 'handler':
            st.g['k_app'] = None
        elif name.startswith('exec') or name == 'fexecve':
            self.ob('exec')
            if name not in ('execv', 'execvp', 'execve', 'execvpe'):
                self.bad(st, 'other', 'a program can be started with %s, without the received arguments' % name)
                return
            why = self.vector(st, st.resolve(args[1]))
            if why:
                self.bad(st, why[0], why[1], show(why[2], -3)[:300] if len(why) > 2 else None)
            elif not self.isfirst(st, st.resolve(args[0]), st.resolve(args[1])):
                self.bad(st, 'file', 'the program that is executed is not the first element of the argument vector', show(st.resolve(args[0]), -3)[:300])

    def isfirst(self, st, p, vec):
        x = st.resolve(self.I.load(st, vec, 8, 64)[0][1])
        if x is p or x == p:
            return True
        if isP(p) and p.a[1] == 0 and p.a[0].tag == 'sd' and p.a[0].a[0].tag == 'el' and st.resolve(p.a[0].a[0].a[1]) == 0:
            l = p.a[0].a[0].a[0]
            v, _ = self.I.models.container(st, vec.a[0].a[0])
            if v.a[1] and v.a[1][0].tag == 'sl' and v.a[1][0].a[0].tag == 'cptr' and v.a[1][0].a[0].a[0] is l:
                return True
            w, _ = self.I.models.container(st, l)
            if w is not None and w.a[1] and w.a[1][0].tag == 'sl' and self.execlist(w.a[1][0].a[0]) and w.a[1][0].a[1] == 0:
                return True
        if isP(p) and p.a[1] == 0 and p.a[0].tag == 'cs':
            o = p.a[0].a[0]
            if o.tag == 'f' and o.a[1] == 0 and o.a[0].tag == 'e' and st.resolve(o.a[0].a[1]) == 0 and self.execlist(o.a[0].a[0]):
                return True
        s = self.I.models.cstr(st, p)
        t = self.I.models.cstr(st, x)
        if s is not None and t is not None and s.a[0] is t.a[0]:
            return True
        return False

    def execlist(self, src):
        return is_path(src, self.OFF['hosts'], '[]', 32, '[]', self.OFF['exec'])

    def segments(self, st, v, depth=0):
        """The segments of an argument vector, pointers replaced by what they point to"""
        out = []
        for s in v.a[1]:
            if s.tag == 'sl' and s.a[0].tag == 'cptr' and depth < 2:
                w, _ = self.I.models.container(st, s.a[0].a[0])
                n = lin_add(s.a[2], w.a[2], -1) if w is not None else None
                if w is None or s.a[1] != 0 or not (n == 0 or eval_cmp(st, 'eq', s.a[2], w.a[2], 64) is True):
                    out.append(('part', s))
                else:
                    out += self.segments(st, w, depth + 1)
            else:
                out.append((s.tag, s))
        return out

    def vector(self, st, p):
        """Why a pointer is not the argument vector of a configured command: (rule, message, value), or None"""
        unk = ('vector', 'the arguments of the program that is executed are not known to be those of a configured command')
        if not isP(p):
            return unk + (p,)
        if p.a[1] != 0 or p.a[0].tag != 'el' or st.resolve(p.a[0].a[1]) != 0:
            return unk + (p,)
        v, _ = self.I.models.container(st, p.a[0].a[0])
        if v is None or v.tag != 'vec':
            return unk + (p,)
        segs = self.segments(st, v)
        if not segs:
            return unk + (v,)
        k, s = segs[0]
        if k != 'sl':
            return ('vector', 'the program that is executed does not start with the configured command line', s)
        src, lo, hi = s.a
        pos = self.execlist(src)
        if pos is None:
            if is_path(src, self.OFF['commands'], '[]', self.OFF['exec']) is not None:
                return ('host', 'a command of another host can be executed', src)
            return ('vector', 'the program that is executed is not the executable of a configured command', src)
        if lo != 0 or not eval_cmp(st, 'eq', hi, mk('s', LN, src), 64) is True:
            return ('vector', 'only a part of the configured command line is executed', s)
        host, cmd = pos
        if not (isinstance(host, V) and host.tag == 'k'):
            return ('host', 'the host whose command is executed is not looked up by its name', src)
        if not (isinstance(cmd, V) and cmd.tag == 'k'):
            return ('name', 'the command that is executed is not looked up by its name', src)
        if cmd.a[0] in self.badnames or cmd.a[0] not in self.names:
            return ('name', 'the command that is executed %s' % self.badnames.get(cmd.a[0], 'is not looked up under the received name'), cmd)
        odd = frozenset(st.g.get('may_odd', ()))
        for n, (k, s) in enumerate(segs[1:]):
            last = n == len(segs) - 2
            if k == 'one' and len(s.a[0]) == 1 and s.a[0][0][2] == 0 and s.a[0][0][1] == 8:
                if not last:
                    return ('null', 'the argument vector is ended by a null pointer before the received arguments', s)
                continue
            if last:
                return ('null', 'the argument vector is not ended by a null pointer', s)
            if k == 'one':
                xs = [x for _, z, x in s.a[0]]
            elif k == 'any' and not s.a[1]:
                xs = [x for _, z, x in s.a[0] or ()]
            else:
                return ('vector', 'something other than the received arguments follows the configured command line', s)
            for x in xs:
                if x == 0 and k == 'any':
                    continue
                if not self.received_arg(x):
                    return ('vector', 'something other than the received arguments follows the configured command line', x)
        for s in v.a[1]:
            if s.tag == 'sl' and s.a[0].tag == 'cptr' and s.a[0].a[0] in odd:
                return ('vector', 'something that was not received as an argument can follow the configured command line', s)
        if len(segs) == 1:
            return ('null', 'the argument vector is not ended by a null pointer', s)
        return None


class C02(Request):
    id = 'C02'
    rule = ('at every exec of the process of a request the environment is a vector whose elements all are a name that the configuration declares for the command, an equals sign and a value; a value received from a '
            'client becomes the value of a declared name only where the first character of that name was found not to be the mark of fixed variables, is never used under a name that was not declared, and never '
            'reaches a substitution except as the value of a declared name')
    SETS = ('operator=', 'operator[]', 'emplace', 'try_emplace', 'insert', 'insert_or_assign', 'assign', 'append', 'operator+=', 'swap')
    need = {'exec': 1, 'environment elements': 1, 'received values used': 1}

    def declared(self, p):
        """Whether a piece of a shape is (a part of) a name that the configuration declares"""
        w, c, b = p.rpartition(':')
        name = 'cfg.%d[].32[].%d[].0' % (self.OFF['hosts'], self.OFF['env'])
        return b == name and set(w.split('.')) <= {'', 'part', 'erase'}

    def settable(self, st):
        """Whether the first character of a declared name is known not to mark a fixed variable (None if no such character was looked at)"""
        got = None
        for k, r in st.f.items():
            if k.tag == 'op' and k.a[0] == 'ch' and k.a[2] == 0:
                i = k.a[1]
                if i.tag == 'f' and i.a[1] == 0 and i.a[0].tag == 'e' and is_path(i.a[0].a[0], self.OFF['hosts'], '[]', 32, '[]', self.OFF['env']) is not None:
                    if not r_contains(r, 61):
                        return True
                    if r == R_set(61):
                        got = False
        return got

    def mapvalue(self, st, loc, key, v):
        if self.role(st) != 'handler' or ('in',) not in shapes(v):
            return v
        names = shapes(key) if key is not None else None
        if names is not None and names == {('in',)}:
            return v        # what was received
        self.ob('received values used')
        if names is None or not all(len(x) == 1 and self.declared(x[0]) for x in names):
            self.bad(st, 'name', 'a received value can become the value of a variable that the configuration does not declare', show(key, -2)[:200] if key is not None else '')
        elif not st.g.get('mustset'):
            self.bad(st, 'fixed', 'a received value can become the value of a variable that the configuration fixes')
        return mk('S', v.a[0], v.a[1], frozenset(('chosen',) if (x if isinstance(x, tuple) else (x,)) == ('in',) else x for x in v.a[2]))

    def call(self, st, f, args, ins):
        if self.role(st) == 'handler' and f.meth in self.SETS and st.g.get('k_dec') is not None and not st.g.get('k_rep'):
            s = self.settable(st)       # here, as facts about variables of the caller are not known in the callee
            if s is not None:
                st.g['mustset'] = frozenset((1,)) if s else frozenset()
        if self.role(st) == 'handler' and f.name.startswith('k8psh::Utilities::') and 'nvironment' in f.meth:
            for a, t in zip(args, M.split_args(f.args)):
                p = st.resolve(a)
                if 'map<' in t and isP(p):
                    m = self.I.models.gm(st, p)
                    for k, c in m.a[1]:
                        x = next((x for o, n, x in c if o == 0 and n == 32), None)
                        if x is None or ('in',) in shapes(x):
                            self.bad(st, 'substitution', 'received values of variables that are not declared can be substituted')
        return Request.call(self, st, f, args, ins)

    def pre(self, st, name, args):
        Wire.pre(self, st, name, args)
        if self.role(st) not in FORKED or not (name.startswith('exec') or name.startswith('posix_spawn') or name in ('system', 'popen', 'fexecve')):
            return
        self.ob('exec')
        if name in ('execve', 'execvpe', 'fexecve'):
            p = st.resolve(args[2])
        elif name.startswith('posix_spawn'):
            p = st.resolve(args[5])
        else:
            e = st.get(mk('g', 'environ'), 0)
            p = st.resolve(e[1]) if e else None
        why = self.environment(st, p)
        if why:
            self.bad(st, 'environment', why[0], show(why[1], -3)[:300] if why[1] is not None else '')

    def environment(self, st, p):
        if not isP(p) or p.a[0].tag != 'el' or p.a[1] != 0 or st.resolve(p.a[0].a[1]) != 0:
            return 'a command can start with an environment other than the one built from the declared variables', p
        v, _ = self.I.models.container(st, p.a[0].a[0])
        if v is None or v.tag != 'vec':
            return 'a command can start with an environment other than the one built from the declared variables', p
        segs = list(v.a[1])
        if not segs or segs[-1].tag != 'one' or segs[-1].a[0][0][2] != 0:
            return 'the environment of a command is not ended by a null pointer', v
        for s in segs[:-1]:
            if s.tag == 'sl' and s.a[0].tag == 'cptr':
                w, _ = self.I.models.container(st, s.a[0].a[0])
                if w is None or w.tag != 'vec':
                    return 'unknown strings can be in the environment of a command', s
                n = lin_add(s.a[2], w.a[2], -1)
                if s.a[1] != 0 or not (n == 0 or eval_cmp(st, 'eq', s.a[2], w.a[2], 64) is True):
                    return 'a declared variable can be missing in the environment of a command', s
                for q in w.a[1]:
                    if q.tag not in ('one', 'any') or q.tag == 'any' and q.a[1]:
                        return 'strings that are not variables can be in the environment of a command', q
                    for _, z, x in q.a[0] or ():
                        if isinstance(x, V) and x.tag == 'S':
                            why = self.element(x)
                            if why:
                                return why, x
            elif s.tag == 'one' and s.a[0][0][2] == 0:
                continue
            else:
                return 'unknown strings can be in the environment of a command', s
        return None

    def element(self, x):
        for t in shapes(x):
            self.site('environment elements', t)
            if len(t) < 2 or not self.declared(t[0]) or t[1][:2] != '==':
                return 'the environment of a command can contain a variable that the configuration does not declare (%s)' % ' '.join(t)
            if any(q == 'in' for q in t[2:]):
                return 'the environment of a command can contain a received value that was not chosen for a variable clients may set'
        return None
