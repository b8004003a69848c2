"""Property monitors (fourth part): limits and shutdown, the commands that are run."""
from pbase import *
import libc as LC
from props2 import Files, UNLINKS

GH = mk('sp', 'ghost')


class C26(Files):
    id = 'C26'
    affine = True
    keyed = ('poll',)
    OPTS = {b'-w': 'w', b'--no-wait': 'w'}
    rule = ('the number of successful accepts, counted by the analysis next to the variables of the server, is provably below the limit read from the options (or the limit negative) at every accept and wait for '
            'connections, and has provably reached it wherever the server stops accepting without a signal, timeout or error; between the last accept and the first removed file or the end every path waits for child '
            'processes until there is none left, unless the option not to wait was seen, no connection was accepted or an error is being handled')
    need = {'accept': 1, 'waits on the listening socket': 1, 'removals': 1, 'server ends': 1, 'limits read': 1}

    def start(self, st):
        self.sites, self.per = {}, {}
        st.m[GH] = Obj({0: (8, 0)})

    def cnt(self, st):
        c = st.get(GH, 0)
        return st.resolve(c[1]) if c else None

    def limits(self, st):
        o = st.m.get(GH)
        return [(q, st.resolve(x)) for q, (n, x) in sorted(o.c.items()) if isinstance(q, int) and q > 0] if o else []

    def below(self, st):
        c = self.cnt(st)
        return {q: (eval_cmp(st, 'slt', c, x, 64) is True, eval_cmp(st, 'slt', x, 0, 64) is True, eval_cmp(st, 'sge', c, x, 64) is True) for q, x in self.limits(st)}

    def judge(self, st, rule, ok, msg):
        """One of the numbers that are read must be the limit everywhere: records where each is not."""
        all_, self.violations = self.violations, {}
        self.bad(st, rule, msg)
        one, self.violations = self.violations, all_
        for q, b in self.below(st).items():
            if not ok(b):
                for k, v in one.items():
                    self.per.setdefault(q, {}).setdefault(k, v)

    def finish(self):
        if self.sites:
            self.violations.update(min([self.per.get(8 * (n + 1), {}) for n in self.sites.values()], key=len))

    def key(self, st):
        if self.role(st) != 'server' or not self.limits(st):
            return ()
        e = st.g.get('wer')
        return (tuple(sorted(self.below(st).items())), self.cnt(st) == 0, e is not None and st.const(e) == 10)

    def event(self, st, ev, **k):
        if ev == 'throw' and self.role(st) == 'server':
            st.g['k_thr'] = 1

    def branch(self, st, e, t):
        Files.branch(self, st, e, t)
        if self.role(st) == 'server' and not st.g.get('k_sig'):
            rs = self.I.models.revs(e) if isinstance(e, V) else ()
            if any(kind(q) == 'piper' for r in rs for q in self.fds(st, r.a[1]) or ()):
                b = bit_test(e, t)
                if b is not None and b[1]:
                    st.g['k_sig'] = 1

    def pre(self, st, name, args):
        if self.role(st) != 'server':
            return
        if name == 'listen':
            return
        if name in ('poll', 'accept') and self.onlistener(st, name, args):
            st.g['k_lis'] = 1
            self.ob('waits on the listening socket' if name == 'poll' else 'accept')
            self.judge(st, 'more', lambda x: x[0] or x[1], 'the server can %s although the limit of connections may have been reached' % ('wait for another connection' if name == 'poll' else 'accept another connection'))
            st.g['k_sig'] = 0
            if name == 'poll' and self.blocking(st, args):
                st.g['wer'] = None
        elif name in UNLINKS and st.g.get('k_lis'):
            self.ob('removals')
            self.done(st, 'removes files')

    def post(self, st, name, args, ret, err):
        if name in ('stoll', 'stoi', 'stol', 'stoul', 'stoull') and self.role(st) in ('main', 'server'):
            self.ob('limits read')
            n = self.sites.setdefault(self.I.site(), len(self.sites))
            st.put(GH, 8 * (n + 1), 8, ret)
        if self.role(st) != 'server':
            return
        if name == 'accept' and not err:
            c = self.cnt(st)
            st.put(GH, 0, 8, lin_add(c, 1))
            st.g['wer'] = None
        elif name == 'waitpid' and err and isinstance(args[0], int) and args[0] == -1:
            st.g['wer'] = st.resolve(self.I.load(st, M.ERRNO, 4, 32)[0][1])
        elif name == 'poll' and not err and isinstance(ret, int) and ret == 0:
            st.g['k_sig'] = 1      # the timeout

    def done(self, st, what):
        """The server is ending: it must be entitled to and have waited."""
        if st.g.get('k_thr'):
            return
        if not st.g.get('k_sig'):
            self.judge(st, 'fewer', lambda x: x[2], 'the server can end without a signal, timeout or error before it has accepted the number of connections it is limited to')
        e = st.g.get('wer')
        if not (e is not None and st.const(e) == 10) and self.cnt(st) != 0 and not self.opt(st, 'w'):
            self.bad(st, 'wait', 'the server %s without having waited for all connections' % what)

    def end(self, st, how, status):
        if self.role(st) == 'server' and st.g.get('k_lis') and how in ('exit', '_exit', 'quick_exit', '_Exit'):
            self.ob('server ends')
            self.done(st, 'ends')
