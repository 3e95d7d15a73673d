"""C24: an output argument is written on every path on which the operation returns normally."""
import re

import inline
import locks

SCALAR_T = re.compile(r'^(volatile )?(bool|char|signed char|unsigned char|char16_t|char32_t|wchar_t|short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long|float|double|long double|std::basic_string<[^<>]*>|std::chrono::(duration|time_point)<.*>) ?&$')
CONFIRMED = [('Balau::Container::ArrayBlockingQueue', 'tryDequeue'), ('Balau::Interprocess::SharedMemoryQueue', 'tryDequeue')]


def outputs(f):
    """Parameters that could carry a result: references to plain values or strings that are not const."""
    for i, p in enumerate(f.params):
        t = f.types[p['t']]
        if t.endswith('&') and not t.endswith('&&') and not t.startswith('const ') and (SCALAR_T.match(t) or p.get('enum') or is_enum(f, t)):
            yield i, p


def is_enum(f, t):
    return t[:-1].strip() in f.prog.enums


class Writes:
    """Which parameters a function has certainly written when it returns, and which it reads first."""

    def __init__(self, prog):
        self.P = prog
        self.memo = {}
        self.busy = set()
        self.uses_memo = {}

    def use(self, f, n):
        """How the reference expression n is used: 'r' read, 'w' overwritten, 'm' modified in place, 'call' with (callee, index), 'x' nothing."""
        u = self.uses_memo.get((f.id, n))
        if u is None:
            u = self.uses_memo[(f.id, n)] = self._use(f, n)
        return u

    def _use(self, f, n):
        cur, p = n, f.parents.get(n)
        while p is not None:
            d = f.nodes[p]
            k = d['k']
            if k == 'ImplicitCastExpr' and d.get('ck') == 'LValueToRValue':
                g = f.parents.get(p)
                while g is not None and f.k(g) in ('ParenExpr', 'ImplicitCastExpr'):
                    g = f.parents.get(g)
                return ('r', p)
            if k in ('ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXStaticCastExpr', 'CXXConstCastExpr'):
                if k == 'ImplicitCastExpr' and f.t(p).startswith('const '):
                    cur, p = p, f.parents.get(p)
                    const = True
                    q = self._use(f, cur) if False else None
                    continue
                cur, p = p, f.parents.get(p)
                continue
            if k == 'BinaryOperator' and d.get('asg'):
                return ('w', p) if f.kids(p)[0] == cur and d.get('op') == '=' else ('m', p) if f.kids(p)[0] == cur else ('r', p)
            if k == 'CompoundAssignOperator':
                return ('m', p) if f.kids(p)[0] == cur else ('r', p)
            if k == 'UnaryOperator':
                if d.get('op') in ('++', '--'):
                    return ('m', p)
                if d.get('op') == '&':
                    return ('w', p)         # its address is handed out to be written
                return ('r', p)
            if k == 'CXXOperatorCallExpr':
                kids = f.kids(p)[1:]
                if cur in kids and kids[0] == cur and d.get('cls'):
                    if d.get('op') == '=':
                        return ('w', p)
                    if d.get('op') in ('+=', '<<', '>>', '++', '--'):
                        return ('m', p)
                    return ('r', p)
                if cur in kids:
                    if d.get('op') == '>>':
                        return ('w', p)
                    return self.passed(f, p, cur)
                return ('r', p)
            if k == 'MemberExpr':
                c = f.parents.get(p)
                while c is not None and f.k(c) in ('ParenExpr', 'ImplicitCastExpr'):
                    c = f.parents.get(c)
                if c is not None and f.k(c) == 'CXXMemberCallExpr':
                    cd = f.nodes[c]
                    if cd.get('cm'):
                        return ('r', c)
                    name = (cd.get('f') or '').split('::')[-1]
                    return ('w', c) if name in ('assign', 'clear', 'swap', 'resize') else ('m', c)
                return ('r', p)
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                return self.passed(f, p, cur)
            if k == 'ReturnStmt':
                return ('x', p)
            if k in ('DeclStmt', 'LambdaExpr', 'InitListExpr'):
                return ('x', p)
            if k in ('CompoundStmt',):
                return ('x', p)
            if k == 'CStyleCastExpr' or k == 'CXXFunctionalCastExpr':
                if f.t(p) == 'void':
                    return ('x', p)
                cur, p = p, f.parents.get(p)
                continue
            return ('r', p)
        return ('x', n)

    def passed(self, f, c, a):
        args = f.args(c)
        if a not in args:
            return ('r', c)
        i = args.index(a)
        if f.nodes[c].get('f') in ('std::move', 'std::forward'):
            return ('r', c)
        pt = f.ptypes(c)
        if i < len(pt) and (pt[i].startswith('const ') or not pt[i].endswith('&')):
            return ('r', c)
        return ('call', c, i)

    def param_refs(self, f, pid):
        return [n for n, d in enumerate(f.nodes) if d['k'] == 'DeclRefExpr' and d.get('v') == pid]

    def summary(self, g):
        """(parameters certainly written at normal return, parameters whose incoming value may be read)."""
        if g.id in self.memo:
            return self.memo[g.id]
        if g.cfg is None:
            return None
        self.memo[g.id] = (frozenset(range(len(g.params))), frozenset())
        idx = {p['id']: i for i, p in enumerate(g.params)}
        reads = set()
        refs = {}
        fs = [g] + g.descendant_lambdas()
        for h in fs:
            for n, d in enumerate(h.nodes):
                if d['k'] == 'DeclRefExpr' and d.get('v') in idx:
                    u = self.use(h, n)
                    refs.setdefault((h.id, u[1]), []).append((idx[d['v']], u))
                elif d['k'] == 'DeclRefExpr' and 'v' in d:
                    # a local reference to the parameter
                    p = h.path(n)
                    if p and len(p) == 1 and p[0][:2] == 'v:' and p[0][2:] in idx:
                        u = self.use(h, n)
                        refs.setdefault((h.id, u[1]), []).append((idx[p[0][2:]], u))

        def step(h, st, e, rec):
            if not isinstance(e, int):
                return st
            for i, u in refs.get((h.id, e), ()):
                if u[0] == 'r':
                    if i not in st:
                        reads.add(i)
                elif u[0] == 'm':
                    if i not in st:
                        reads.add(i)
                    st = st | {i}
                elif u[0] == 'w':
                    st = st | {i}
                elif u[0] == 'call':
                    ts = self.P.targets(h, u[1])
                    if h.nodes[u[1]].get('op') == '()' and not ts:
                        ts = [x for x in (inline.local_lambda(self.P, h, h.kids(u[1])[1]),) if x]
                    if not ts:
                        st = st | {i}
                        continue
                    sums = [self.summary(t) for t in ts]
                    sums = [s for s in sums if s is not None]
                    if sums and any(u[2] in s[1] for s in sums) and i not in st:
                        reads.add(i)
                    if all(u[2] in s[0] for s in sums):
                        st = st | {i}
            return st
        I = inline.Inliner(self.P, step, lambda a, b: a & b, None, lambda f, n, h: False)
        out = I.run(g, frozenset())
        r = (out if out is not None else frozenset(range(len(g.params))), frozenset(reads))
        self.memo[g.id] = r
        self.refs = refs
        return r

    def touched(self, g, pid):
        return any(d.get('v') == pid for h in [g] + g.descendant_lambdas() for d in h.nodes if d['k'] == 'DeclRefExpr')


def check(prog, rep):
    W = Writes(prog)
    for c, m in CONFIRMED:
        prog.need_class(c)
    found = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.dn)):
        if 'ThirdParty' in f.file or f.cfg is None or f.d.get('lambda') or '(lambda)' in f.qn:
            continue
        for i, p in outputs(f):
            t = f.types[p['t']]
            rep.count('reference parameters of plain types')
            s = W.summary(f)
            if i in s[1]:
                continue            # the caller's value is an input too
            if not p.get('n'):
                continue            # an unnamed parameter reports nothing
            if not writes_somewhere(W, f, p['id']):
                if W.touched(f, p['id']):
                    continue        # only handed on or returned
                if not t.startswith('bool') and not is_enum(f, t):
                    continue        # unused: nothing says that it is an output
            rep.count('output parameters')
            rep.sample('outputs', '%s(%s)' % (f.qn, p['n']), 40)
            found.add((f.cls, f.name))
            if i not in s[0]:
                rep.violation('%s|%s' % (f.qn, p['n']), f.loc(), '%s can return without writing its output argument %s: the caller reads an old or uninitialised value' % (f.dn, p['n']))
    for c, m in CONFIRMED:
        if (c, m) not in found and any(f.cls == c and f.name == m and any(True for _ in outputs(f)) for f in prog.fns.values()):
            rep.violation('%s|%s|none' % (c, m), 'src/main/cpp', '%s::%s never writes its output argument' % (c, m))
    rep.need('output parameters', 30)
    return ('For every parameter that is a non-const reference to a number, flag, enumeration, duration or string, whose incoming value the function does not read: along every path to a normal return (writes through callees, '
            'closures and local references included) the parameter is written; a flag parameter that is never written at all is also reported.')


def writes_somewhere(W, f, pid):
    for h in [f] + f.descendant_lambdas():
        for n, d in enumerate(h.nodes):
            if d['k'] == 'DeclRefExpr' and 'v' in d and (d['v'] == pid or h.path(n) == ('v:' + pid,)):
                u = W.use(h, n)
                if u[0] in ('w', 'm'):
                    return True
                if u[0] == 'call':
                    ts = W.P.targets(h, u[1])
                    if not ts or any((W.summary(t) or (frozenset([u[2]]),))[0] >= {u[2]} or writes_param(W, t, u[2]) for t in ts):
                        return True
    return False


def writes_param(W, g, i, depth=0):
    if i >= len(g.params) or getattr(W, '_wp', None) and (g.id, i) in W._wp:
        return False
    W._wp = getattr(W, '_wp', set()) | {(g.id, i)}
    r = writes_somewhere(W, g, g.params[i]['id'])
    W._wp = W._wp - {(g.id, i)}
    return r
