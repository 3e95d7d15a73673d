"""C19: archive operations check every failure, never touch a closed archive, stay inside the buffer and end."""
import re

import failpath
import inline
import nullness

# archive-library functions: failing result. 'err' results report through the int that the last argument points to.
FAIL = {'zip_open': 0, 'zip_stat_index': -1, 'zip_stat': -1, 'zip_get_num_entries': -1, 'zip_fopen_index': 0, 'zip_fopen': 0, 'zip_fread': -1,
        'zip_set_default_password': -1, 'zip_set_archive_comment': -1, 'zip_dir_add': -1, 'zip_source_file': 0, 'zip_source_buffer': 0,
        'zip_file_add': -1, 'zip_file_rename': -1, 'zip_delete': -1, 'zip_close': -1, 'zip_file_get_comment': 0, 'zip_file_replace': -1,
        'zip_file_set_comment': -1, 'zip_fopen_encrypted': 0, 'zip_fopen_index_encrypted': 0, 'zip_source_filep': 0, 'zip_source_zip': 0, 'zip_open_from_source': 0,
        'zip_set_file_compression': -1, 'zip_source_buffer_create': 0, 'zip_source_file_create': 0, 'zip_fdopen': 0}
OPENS = ('zip_open', 'zip_fdopen')
RELEASE = ('zip_discard', 'zip_close')


class Rule:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.N = nullness.Nullness(P)
        self.F = failpath.FailPath(P, model=self.model)
        self.never = {}

    def model(self, f, e, env, F):
        """A second failing call reports through the error variable."""
        if f.callee(e) in OPENS and ('n', e) not in env:
            return failpath.UNK
        return NotImplemented

    # ---- A: the archive is open
    def archive_calls(self, f):
        for n in f.calls():
            c = f.callee(n)
            if c and c.startswith('zip_') and f.nodes[n].get('extc') and f.ptypes(n) and re.match(r'^(const )?(struct )?zip( const)? ?\*', f.ptypes(n)[0]):
                yield n, f.args(n)[0]

    def handle(self, f, a):
        """Access path of the archive handle: through casts and casting helpers. A local copy is that local."""
        m = f.strip_all(a)
        if self.copied(f, ('v:' + f.nodes[m].get('v', '?'),)) is not None:
            return ('v:' + f.nodes[m]['v'],)
        p = f.path(a)
        if p is not None:
            return p
        if f.is_call(m):
            g = self.P.fns.get(f.nodes[m].get('fid'))
            if g is not None:
                e = self.N.returns(g)
                if e is not None:
                    q = g.path(e)
                    if q is not None:
                        for i, x in enumerate(g.params):
                            if q == ('v:' + x['id'],) and i < len(f.args(m)):
                                return self.handle(f, f.args(m)[i])
                        th, ar = self.N.frame(f, m)
                        for x in nullness.rebase(g, [q], th, ar):
                            return x
        return None

    def through(self, f, m):
        """The argument of a helper that only casts."""
        while f.is_call(m):
            g = self.P.fns.get(f.nodes[m].get('fid'))
            e = self.N.returns(g) if g is not None else None
            q = g.path(e) if e is not None else None
            i = next((i for i, x in enumerate(g.params) if q == ('v:' + x['id'],)), None) if q is not None else None
            if i is None or i >= len(f.args(m)):
                return m
            m = f.strip_all(f.args(m)[i])
        return m

    def copied(self, f, p):
        """(declaration, path) when p is a local that is only ever a copy of another handle."""
        if p is None or len(p) != 1 or not p[0].startswith('v:'):
            return None
        g, v = f.lookup_var(p[0][2:])
        if v is None or g is not f or v.get('param') or v.get('ref') or 'init' not in v or '*' not in v['type'] or f.assigned(p[0][2:]):
            return None
        m = self.through(f, f.strip_all(v['init']))
        if f.callee(m) == 'std::exchange':
            q = f.path(f.args(m)[0])
        else:
            q = self.handle(f, m)
        return (v['node'], q, m) if q is not None and q != p else None

    def open_facts(self, f, n, p, depth=0):
        """Is the handle p of f certainly not null at n?"""
        c = self.copied(f, p)
        if c is not None and depth < 4:
            return self.open_facts(f, c[2] if f.is_call(c[2]) else c[0], c[1], depth + 1)
        st = self.N.at(f, n)
        if st is None or p in st:
            return True
        if self.opened(f, n, p):
            return True
        # private and protected helpers, and closures: every caller has checked
        if depth < 4 and (p[0] == 'this' or p[0].startswith('v:')):
            if f.access in ('private', 'protected') or f.kind == 'lambda':
                sites = self.P.callers.get(f.id, ())
                if f.kind == 'lambda' and not sites:
                    return False
                if sites and self.unchanged(f, n, p):
                    ok = True
                    for g, c in sites:
                        q = None
                        if f.kind == 'lambda' and (p[0] == 'this' or f.lookup_var(p[0][2:])[0] is not f):
                            q = p
                            if p[0] == 'this' and not (g is f.parent or g.cls == f.root().cls):
                                q = None
                        else:
                            th, ar = self.N.frame(g, c)
                            for x in nullness.rebase(f, [p], th, ar):
                                q = x
                        ok = ok and q is not None and self.open_facts(g, c, q, depth + 1)
                    return ok
        return False

    def unchanged(self, f, n, p):
        return p not in self.N.changed(f)

    def opened(self, f, n, p):
        """The handle was obtained by an opening call whose error variable, or result, has been tested: on the failing path n is not reached."""
        for c in f.calls():
            if f.callee(c) in OPENS:
                q = self.stored(f, c)
                if q is not None and q == p and f.cfg.where(c) != f.cfg.where(n):
                    hit = []
                    def mon(g, e, env, F):
                        if g is f and e == n:
                            hit.append(e)
                        return None
                    F = failpath.FailPath(self.P, monitor=mon, model=self.model)
                    F.explore(f, c, 0, env=self.error_env(f, c))
                    if not hit and self.before(f, c, n):
                        return True
        return False

    def before(self, f, c, n):
        """Is n only reached through c?"""
        w, x = f.cfg.where(c), f.cfg.where(n)
        if w[0] == x[0]:
            return w[1] < x[1]
        seen, todo = {f.cfg.entry}, [f.cfg.entry]
        while todo:
            b = todo.pop()
            if b == w[0]:
                continue
            if b == x[0]:
                return False
            for s, _ in f.cfg.edges(b):
                if s not in seen:
                    seen.add(s)
                    todo.append(s)
        return True

    def stored(self, f, c):
        """Path that the result of call c is assigned to or initialises."""
        m = c
        while m in f.parents:
            q = f.parents[m]
            d = f.nodes[q]
            if d.get('asg') and not d.get('casg'):
                return f.path(f.kids(q)[0])
            if d['k'] == 'DeclStmt':
                for v in d.get('vars', ()):
                    if v.get('init') is not None and c in set(f.walk(v['init'])):
                        return ('v:' + v['id'],)
                return None
            if d['k'] in ('CompoundStmt', 'IfStmt', 'ReturnStmt', 'WhileStmt', 'ForStmt', 'BinaryOperator'):
                return None
            m = q
        return None

    def error_env(self, f, c):
        """On failure of an opening call the error variable is set."""
        env = {}
        if f.callee(c) in OPENS:
            a = f.args(c)[-1]
            m = f.strip_all(a)
            if f.k(m) == 'UnaryOperator' and f.nodes[m].get('op') == '&':
                p = f.path(f.kids(m)[0])
                if p is not None:
                    env[('p',) + p] = failpath.NZ
        return env

    # ---- B: failures end in an exception
    def failure(self, f, n, value, what, trail, depth=0):
        r = self.explore(f, n, value)
        if r.again:
            self.bad(f, n, what, 'is tried again for ever')
        for e, u in r.uses:
            if f.callee(e) in ('free', 'zip_fclose') or f.k(e) in ('UnaryOperator',) and f.kids(e) and False:
                continue
            self.bad(f, n, what, 'is used without a test (line %d)' % f.line_of(e))
        for v, _ in r.exits:
            if v is failpath.UNK or v == failpath.NZ:
                if self.validated(f, n):
                    continue
                self.bad(f, n, what, 'is not reported: %s returns normally' % f.dn)
            elif depth < 4:
                sites = self.P.callers.get(f.id, [])
                lam = self.lambda_sites(f)
                if not sites and not lam:
                    self.bad(f, n, what, 'is not reported: %s returns normally' % f.dn)
                for g, c in list(sites) + lam:
                    self.rep.count('callers of functions that hand a failure on')
                    self.failure(g, c, v, what, trail + [g.dn], depth + 1)

    def lambda_sites(self, f):
        return []

    def explore(self, f, n, value):
        return self.F.explore(f, n, value, env=self.error_env(f, n), uses=True)

    def validated(self, f, n):
        """A comment cannot be missing for an index that has been looked up successfully."""
        if f.callee(n) != 'zip_file_get_comment':
            return False
        idx = f.path(f.args(n)[1])
        if idx is None:
            return False
        for c in f.calls():
            if c == n or not self.before(f, c, n) or f.cfg.where(c) == f.cfg.where(n):
                continue
            if f.callee(c) in ('zip_stat_index',) and any(f.path(a) == idx for a in f.args(c) if a >= 0):
                return True
            for g in self.P.targets(f, c):
                for i, a in enumerate(f.args(c)):
                    if a >= 0 and f.path(a) == idx and i < len(g.params) and self.stats(g, g.params[i]['id']):
                        return True
        return False

    def stats(self, g, pid, depth=0):
        for c in g.calls():
            for i, a in enumerate(g.args(c)):
                if a >= 0 and g.path(a) == ('v:' + pid,):
                    if g.callee(c) == 'zip_stat_index':
                        return True
                    if depth < 3 and any(i < len(h.params) and self.stats(h, h.params[i]['id'], depth + 1) for h in self.P.targets(g, c)):
                        return True
        return False

    def bad(self, f, n, what, how):
        self.rep.violation('%s|%s|%s' % (f.root().qn, what, how.split(':')[0].split(' (')[0]), f.loc(n), '%s: a failure of %s %s' % (f.dn, what, how))

    # ---- C: a released handle is forgotten
    def released(self, f, n, p):
        """After the release the handle is set to null (or replaced) before the function ends or uses it again."""
        val = 0 if f.callee(n) == 'zip_close' else failpath.UNK
        c = self.copied(f, p)
        if c is not None:
            if f.callee(c[2]) == 'std::exchange' and nullness.is_null(f, f.args(c[2])[1]):
                return True
            n, p, val = c[0], c[1], failpath.UNK
            if p[0] != 'this':
                return True
        def mon(g, e, env, F):
            if g is not f:
                return None
            if e != n:
                d = f.nodes[e]
                l = None
                if d.get('asg'):
                    l = f.kids(e)[0]
                elif d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '=':
                    l = f.kids(e)[1]
                if l is not None and f.path(l) == p:
                    return 'cleared'
                if f.is_call(e) and inline.own_object(f, e) and any(p in self.N.changed(h) for h in self.P.targets(f, e)):
                    return 'cleared'
                if f.is_call(e) and (f.callee(e) or '').split('::')[-1] in ('exchange', 'reset') and any(f.path(a) == p for a in f.args(e) if a >= 0):
                    return 'cleared'
            return None
        F = failpath.FailPath(self.P, monitor=mon, model=self.model)
        r = F.explore(f, n, val)
        return all('cleared' in t for _, t in r.exits)

    # ---- D: reads stay inside the buffer, E: and make progress
    def reads(self, f):
        for n in f.calls():
            if f.callee(n) == 'zip_fread':
                self.rep.count('entry reads')
                self.read(f, n, 1, 2)

    def read(self, f, n, di, li, depth=0):
        """The read n of f (or a call of a function that reads) with destination and length at the given argument positions."""
        B = Bounds(f, n, di, li)
        if B.handed_on() is None and not B.ok():
            self.rep.violation('%s|read bound' % f.root().qn, f.loc(n), '%s: the entry read may write more bytes than its buffer holds' % f.dn)
        r = self.F.explore(f, n, 0)
        if r.again:
            self.rep.violation('%s|read progress' % f.root().qn, f.loc(n), '%s: when the entry ends early (a read of no bytes) the read is repeated for ever' % f.dn)
        if B.handed_on() is not None and depth < 4:
            for g, c in self.P.callers.get(f.id, ()):
                self.rep.count('callers of reading helpers')
                self.read(g, c, *B.handed_on(), depth + 1)


class Bounds:
    """offset(destination) + length <= size of the buffer, by linear arithmetic over locals that change together."""

    def __init__(self, f, n, di, li):
        self.f, self.n, self.di, self.li = f, n, di, li
        self.dst, self.len = f.args(n)[di], f.args(n)[li]

    def handed_on(self):
        """Positions of the destination and length parameters when they are the caller's buffer and its size."""
        f = self.f
        p, q = f.path(self.dst), f.path(self.len)
        params = {('v:' + x['id'],): i for i, x in enumerate(f.params)}
        if p in params and q in params and not f.assigned(p[0][2:]) and not f.assigned(q[0][2:]):
            return params[p], params[q]
        return None

    def ok(self):
        f = self.f
        dst, ln = self.dst, self.len
        b = self.base(dst)
        if b is None:
            return False
        buf, off = b
        size = self.size(buf)
        if size is None:
            return False
        return any(self.within(off, l, size) for l in self.alternatives(ln))

    def alternatives(self, n):
        """Expressions each of which the value does not exceed."""
        f = self.f
        m = f.strip_all(n)
        d = f.nodes[m]
        if d['k'] == 'CallExpr' and d.get('f') == 'std::min':
            return [y for a in f.args(m)[:2] for y in self.alternatives(a)]
        if d['k'] == 'DeclRefExpr' and 'v' in d:
            g, v = f.lookup_var(d['v'])
            if v and 'init' in v and not v.get('param') and g is f and not f.assigned(d['v']):
                return [m] + self.alternatives(v['init'])
        if d['k'] == 'ConditionalOperator':
            c, a, b = f.kids(m)[:3]
            cc = f.strip_all(c)
            if f.k(cc) == 'BinaryOperator' and f.nodes[cc].get('op') in ('<', '<=', '>', '>='):
                x, y = f.kids(cc)
                lo = (a, b) if f.nodes[cc]['op'][0] == '<' else (b, a)
                if self.lin(x) == self.lin(lo[0]) and self.lin(y) == self.lin(lo[1]) and self.lin(x) is not None:
                    return self.alternatives(a) + self.alternatives(b)
        return [m]

    # linear forms: dict symbol -> coefficient, symbol None is the constant
    def lin(self, n, depth=0):
        f = self.f
        m = f.strip_all(n)
        d = f.nodes[m]
        if 'iv' in d:
            return {None: int(d['iv'])}
        if d['k'] == 'BinaryOperator' and d.get('op') in ('+', '-') and depth < 10:
            a, b = self.lin(f.kids(m)[0], depth + 1), self.lin(f.kids(m)[1], depth + 1)
            if a is None or b is None:
                return None
            s = 1 if d['op'] == '+' else -1
            out = dict(a)
            for k, v in b.items():
                out[k] = out.get(k, 0) + s * v
            return {k: v for k, v in out.items() if v}
        if d['k'] == 'DeclRefExpr' and 'v' in d:
            g, v = f.lookup_var(d['v'])
            if v and 'init' in v and not v.get('param') and not v.get('ref') and g is f and not f.assigned(d['v']) and depth < 10:
                r = self.lin(v['init'], depth + 1)
                if r is not None:
                    return r
        p = f.path(m)
        if p is not None:
            return {p: 1}
        if d['k'] == 'CXXMemberCallExpr' and (d.get('f') or '').split('::')[-1] in ('size', 'length') and f.obj(m) is not None:
            q = f.path(f.obj(m))
            if q is not None:
                s = self.size(q)
                return s if s is not None else {q + ('.size',): 1}
        if d['k'] == 'UnaryExprOrTypeTraitExpr' and 'iv' in d:
            return {None: int(d['iv'])}
        return None

    def base(self, n, depth=0):
        """(buffer path, linear offset) of a pointer expression."""
        f = self.f
        m = f.strip_all(n)
        d = f.nodes[m]
        if d['k'] == 'BinaryOperator' and d.get('op') == '+' and depth < 6:
            for x, y in (f.kids(m), f.kids(m)[::-1]):
                b = self.base(x, depth + 1)
                o = self.lin(y)
                if b is not None and o is not None:
                    return b[0], add(b[1], o)
            return None
        if d['k'] == 'CXXMemberCallExpr' and (d.get('f') or '').split('::')[-1] in ('data', 'begin', 'c_str') and f.obj(m) is not None:
            q = f.path(f.obj(m))
            return (q, {}) if q is not None else None
        if d['k'] == 'UnaryOperator' and d.get('op') == '&':
            e = f.strip_all(f.kids(m)[0])
            de = f.nodes[e]
            if de['k'] == 'ArraySubscriptExpr' or de['k'] == 'CXXOperatorCallExpr' and de.get('op') == '[]':
                kids = f.kids(e) if de['k'] == 'ArraySubscriptExpr' else f.kids(e)[1:]
                q, o = f.path(kids[0]), self.lin(kids[1])
                return (q, o) if q is not None and o is not None else None
        if d['k'] == 'DeclRefExpr' and 'v' in d:
            g, v = f.lookup_var(d['v'])
            if v and g is f and not v.get('param') and 'init' in v and v['type'].rstrip(' const').endswith('*') and depth < 6:
                b = self.base(v['init'], depth + 1)
                if b is not None:
                    if f.assigned(d['v']):
                        return b[0], add(b[1], {('moved', d['v']): 1})
                    return b
            if v and re.search(r'\[\d+\]$', v['type']):
                return ('v:' + d['v'],), {}
        return None

    def size(self, q):
        f = self.f
        if len(q) == 1 and q[0].startswith('v:'):
            g, v = f.lookup_var(q[0][2:])
            if v is None:
                return None
            m = re.search(r'\[(\d+)\]$', v['type']) or re.search(r'std::array<.*, (\d+)(UL|U|L|UL)?>', v['type'])
            if m:
                return {None: int(m.group(1))}
            s = None
            if 'init' in v and not v.get('param'):
                i = g.strip(v['init'])
                a = [x for x in g.args(i) if x >= 0 and g.k(x) != 'CXXDefaultArgExpr'] if g.is_call(i) else []
                if a and g.nodes[i]['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and re.search(r'(unsigned|long|int|short)', g.t(g.strip(a[0]))):
                    s = self.lin(a[0]) if g is f else None
            res = [c for c in f.calls() if (f.callee(c) or '').split('::')[-1] == 'resize' and f.obj(c) is not None and f.path(f.obj(c)) == q]
            if len(res) == 1:
                s = self.lin(f.args(res[0])[0])
            elif len(res) > 1:
                return None
            bad = [c for c in f.calls() if (f.callee(c) or '').split('::')[-1] in ('clear', 'shrink_to_fit', 'erase', 'pop_back', 'swap') and f.obj(c) is not None and f.path(f.obj(c)) == q]
            return s if not bad else None
        return None

    def within(self, off, ln, size):
        """off + len - size <= 0, where everything that changes in the function changes so as to keep it."""
        l = self.lin(ln)
        if l is None:
            return False
        s = add(add(off, l), {k: -v for k, v in size.items()})
        s = {k: v for k, v in s.items() if v}
        if not [k for k in s if k is not None]:
            return s.get(None, 0) <= 0
        # changing locals: the net change in each basic block must not be positive, the initial value must be within
        syms = [k for k in s if k is not None]
        vids = {}
        for k in syms:
            if k[0] == 'moved':
                vids[k[1]] = k
            elif len(k) == 1 and k[0].startswith('v:'):
                vids[k[0][2:]] = k
        changes = self.changes(set(vids))
        if changes is None:
            return False
        for ch in changes.values():
            net = {}
            for vid, delta in ch:
                net = add(net, {k: s[vids[vid]] * c for k, c in delta.items()})
            net = {k: v for k, v in net.items() if v}
            if net and not (set(net) == {None} and net[None] <= 0):
                return False
        init = {}
        for k, c in s.items():
            vid = k[1] if k is not None and k[0] == 'moved' else k[0][2:] if k is not None and len(k) == 1 and k[0].startswith('v:') else None
            if k is not None and k[0] == 'moved':
                continue
            if vid is not None:
                g, v = self.f.lookup_var(vid)
                if v and 'init' in v and not v.get('param') and self.f.assigned(vid):
                    i = self.lin(v['init'])
                    if i is None:
                        return False
                    init = add(init, {a: b * c for a, b in i.items()})
                    continue
            init = add(init, {k: c})
        init = {k: v for k, v in init.items() if v}
        return not [k for k in init if k is not None] and init.get(None, 0) <= 0

    def changes(self, vids):
        """block -> [(variable, linear change)] of every assignment to the variables after their declaration."""
        f = self.f
        out = {}
        for i, d in enumerate(f.nodes):
            vid = delta = None
            if d.get('asg'):
                l = f.strip(f.kids(i)[0])
                vid = f.nodes[l].get('v')
                if vid not in vids:
                    continue
                r = self.lin(f.kids(i)[1])
                if d.get('casg'):
                    if d['op'] not in ('+=', '-=') or r is None:
                        return None
                    delta = r if d['op'] == '+=' else {k: -v for k, v in r.items()}
                else:
                    if r is None:
                        m = f.strip_all(f.kids(i)[1])       # pointer = pointer + k
                        if f.k(m) == 'BinaryOperator' and f.nodes[m].get('op') == '+' and f.nodes[f.strip(f.kids(m)[0])].get('v') == vid:
                            r = add({('v:' + vid,): 1}, self.lin(f.kids(m)[1]) or {'?': 1})
                        else:
                            return None
                    delta = add(r, {('v:' + vid,): -1})
                    if ('v:' + vid,) in {k for k, v in delta.items() if v}:
                        return None
            elif d['k'] == 'UnaryOperator' and d.get('op') in ('++', '--'):
                l = f.strip(f.kids(i)[0])
                vid = f.nodes[l].get('v')
                if vid not in vids:
                    continue
                delta = {None: 1 if d['op'] == '++' else -1}
            elif d['k'] == 'UnaryOperator' and d.get('op') == '&' and f.nodes[f.strip(f.kids(i)[0])].get('v') in vids:
                return None
            if vid is not None:
                w = f.cfg.where(i)
                if w is None:
                    return None
                out.setdefault(w[0], []).append((vid, delta))
        return out


def add(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v}


def check(prog, rep):
    R = Rule(prog, rep)
    P = prog
    prog.need_class('Balau::Util::Unzipper')
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.dn)):
        if f.cfg is None or 'ThirdParty' in f.file:
            continue
        reach = None
        for n, a in R.archive_calls(f):
            if reach is None:
                reach = f.cfg.reachable()
            w = f.cfg.where(n)
            if w is None or w[0] not in reach:
                continue
            rep.count('uses of an archive handle')
            p = R.handle(f, a)
            rep.sample('archive uses', '%s: %s' % (f.root().qn, f.callee(n)), 40)
            if p is None:
                m = f.strip_all(a)
                rep.violation('%s|%s|handle' % (f.root().qn, f.callee(n)), f.loc(n), '%s: %s is given an archive that cannot be identified' % (f.dn, f.callee(n)))
                continue
            if not R.open_facts(f, n, p):
                rep.violation('%s|%s|open' % (f.root().qn, f.callee(n)), f.loc(n), '%s: %s is called without a check that the archive is open' % (f.dn, f.callee(n)))
            if f.callee(n) in RELEASE and (p[0] == 'this' or R.copied(f, p)) and not R.released(f, n, p):
                rep.violation('%s|%s|released' % (f.root().qn, f.callee(n)), f.loc(n), '%s: the archive is still marked open after %s has freed it' % (f.dn, f.callee(n)))
        for n in f.calls():
            c = f.callee(n)
            if c in FAIL and f.nodes[n].get('extc'):
                rep.count('archive library calls that can fail')
                R.failure(f, n, FAIL[c], c, [f.dn])
        R.reads(f)
    rep.need('uses of an archive handle', 20)
    rep.need('archive library calls that can fail', 20)
    rep.need('entry reads', 2)
    return ('Every libzip call that takes an archive is reached only with a handle known not to be null (nullness dataflow, helpers and closures judged at each of their callers); the failing result of each libzip call is propagated '
            'along every path, through helpers, returned values and error variables: none may return normally, use the failing result or retry for ever; a released handle is cleared on every path; offset plus length of each entry read is '
            'bounded by the buffer size (linear invariants); a read of no bytes leaves the loop.')
