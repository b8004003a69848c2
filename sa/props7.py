"""Property monitors (seventh part): installation."""
from pbase import *
from props5 import GH
from interp import AnalysisError


class C18(PMon):
    id = 'C18'
    rule = ('once the installation of the executable was started (a link to a target given on the command line, or a target opened for writing), the process ends successfully only after the link was made, or after the '
            'executable was opened and read to its end, and every chunk read was written completely, in order and from its start, to a target that was opened for writing, created if missing, and truncated; nothing else is '
            'written to, cut from or removed from the target')
    affine = True
    runs_split = False
    need = {'ends after an installation': 1, 'links': 1, 'chunks read': 1, 'chunks written': 1}
    # ghost numbers: 8 written of the chunk, 16 left of the chunk, 24 size of the chunk
    assumes = PMon.assumes + ('only the execution path of the client until the command is run or the server is started is followed',) if hasattr(PMon, 'assumes') else ()

    def start(self, st):
        PMon.start(self, st)
        st.g.update({'k_lnk': 0, 'k_dst': 0, 'k_src': 0, 'k_eof': 0, 'k_try': 0, 'k_tmp': 0})
        st.put(GH, 8, 8, 0)
        st.put(GH, 16, 8, 0)
        st.put(GH, 24, 8, 0)

    def call(self, st, f, args, ins):
        if f.name.startswith(('mainServer', 'k8psh::Process::')):
            return []
        return PMon.call(self, st, f, args, ins)

    def name(self, st, p):
        s = self.I.models.cstr(st, p)
        return s if isinstance(s, V) and s.tag == 'S' else None

    def exe(self, st, p):
        s = self.name(st, p)
        return s is not None and s.a[2] == frozenset(('exe',)) or s is not None and set(s.a[2]) <= {'exe', ('exe',)}

    def given(self, st, p):
        """Whether a path comes from the command line"""
        s = self.name(st, p)
        return s is not None and not self.exe(st, p)

    def gh(self, st, o):
        e = st.get(GH, o)
        return st.resolve(e[1]) if e else None

    def same(self, st, a, b):
        return a is not None and b is not None and (a == b or eval_cmp(st, 'eq', a, b, 64) is True)

    def settled(self, st):
        return self.same(st, self.gh(st, 16), 0) or self.same(st, self.gh(st, 8), self.gh(st, 24))

    def flags(self, v):
        return v if isinstance(v, int) else None

    def pre(self, st, name, args):
        if name in ('link', 'symlink', 'rename') and len(args) > 1:
            if name != 'rename':
                self.ob('links')
                if not self.exe(st, args[0]) or not self.given(st, args[1]):
                    self.bad(st, 'link', 'something other than the executable is installed', show(args[0], -2)[:200])
            st.g['k_try'] = 1
        elif name in ('open', 'open64', 'creat'):
            fl = 0o1101 if name == 'creat' else self.flags(st.resolve(args[1]))
            if fl is None:
                self.bad(st, 'open', 'a file is opened in an unknown way')
            elif fl & 3:
                st.g['k_try'] = 1
                if self.exe(st, args[0]):
                    self.bad(st, 'open', 'the executable itself is opened for writing')
                if not (fl & 0o1000 or fl & 0o100 and fl & 0o200):
                    self.bad(st, 'old', 'an existing target is not truncated, so that more than the executable can remain in it')
                if not fl & 0o100:
                    self.bad(st, 'open', 'a missing target is not created')
                if fl & 0o2000 and not fl & 0o1000:
                    self.bad(st, 'old', 'data is appended to an existing target')
        elif name in ('read', 'pread', 'fread', 'recv'):
            if args[0] == st.g.get('src') or kind(args[0]) == 'file':
                self.ob('chunks read')
                if st.g.get('k_eof'):
                    return
                if not self.settled(st):
                    self.bad(st, 'lost', 'the next part of the executable is read although the previous one is not completely written')
                if not (args[0] == st.g.get('src')):
                    self.bad(st, 'source', 'something other than the executable is read')
        elif name in ('write', 'pwrite'):
            if kind(args[0]) == 'file':
                self.ob('chunks written')
                self.writes(st, args)
        elif name in ('ftruncate', 'truncate', 'lseek', 'unlink', 'remove') and st.g.get('k_try') and (st.g.get('k_dst') or name in ('unlink', 'remove')):
            if name in ('unlink', 'remove') and not (st.g.get('k_dst') or st.g.get('k_lnk')):
                return
            self.bad(st, 'spoiled', 'the target is changed with %s' % name)

    def writes(self, st, args):
        fd, p, n = args[:3]
        if fd != st.g.get('dst'):
            self.bad(st, 'target', 'a part of the executable is written to something other than the target')
            return
        b = st.g.get('buf')
        done, left = self.gh(st, 8), self.gh(st, 16)
        if not (isP(p) and isP(b) and p.a[0] is b.a[0]):
            self.bad(st, 'content', 'something other than the data read is written to the target', show(p, -2)[:200])
            return
        off = lin_add(p.a[1], b.a[1], -1) if isinstance(b.a[1], (int, V)) else None
        if off is None or not (self.same(st, off, done) or self.same(st, lin_add(self.gh(st, 24), off, -1), left)):
            self.bad(st, 'content', 'the part written to the target does not follow the previous one', show(off, -3)[:200] if off is not None else None)
        rest = lin_add(self.gh(st, 24), done, -1)
        if not any(x is not None and (self.same(st, n, x) or eval_cmp(st, 'sle', n, x, 64) is True) for x in (left, rest)):
            self.bad(st, 'content', 'more than the data read is written to the target')

    def post(self, st, name, args, ret, err):
        if name in ('link', 'symlink') and not err:
            st.g['k_lnk'] = 1
        elif name in ('open', 'open64', 'creat') and not err:
            fl = 0o1101 if name == 'creat' else self.flags(st.resolve(args[1]))
            if fl is not None and fl & 3:
                st.g['k_dst'], st.g['dst'] = 1, ret
                st.g['k_tmp'] = 0 if self.given(st, args[0]) else 1
            elif self.exe(st, args[0]):
                st.g['k_src'], st.g['src'] = 1, ret
        elif name == 'read' and args[0] == st.g.get('src') and not err:
            if ret == 0:
                st.g['k_eof'] = 1
            else:
                st.g['buf'] = args[1]
                st.put(GH, 8, 8, 0)
                st.put(GH, 16, 8, ret)
                st.put(GH, 24, 8, ret)
        elif name == 'write' and args[0] == st.g.get('dst') and not err:
            for o, k in ((8, 1), (16, -1)):
                x = self.gh(st, o)
                st.put(GH, o, 8, lin_add(x, ret, k) if x is not None else self.I.models.fresh(st, 'lost'))

    def end(self, st, how, status):
        if st.g.get('k_role') != 'main' or not st.g.get('k_try'):
            return
        c = st.const(st.resolve(status)) if isinstance(status, V) else status
        if how == 'exit' or how == '_exit':
            if isinstance(c, int) and c & 255:
                return
            self.ob('ends after an installation')
            if st.g.get('k_lnk') and not st.g.get('k_dst'):
                return
            if not st.g.get('k_dst'):
                self.bad(st, 'missing', 'the installation can be reported as successful although the target was neither linked nor written')
            elif not st.g.get('k_eof'):
                self.bad(st, 'cut', 'the installation can be reported as successful although the executable was not read to its end')
            elif not self.settled(st):
                self.bad(st, 'lost', 'the installation can be reported as successful although a part of the executable was not written')
            elif st.g.get('k_tmp'):
                self.bad(st, 'target', 'the file written is not the one given on the command line')
