"""Forward must analysis of what is known not to be null (or not to be the end of a container).

Facts are access paths. A fact is gained from a test of the path (or of a helper that only tests it), from an assignment
of something that cannot be null, and from the normal return of a helper that throws otherwise; it is lost when the path,
or an object it goes through, is assigned, reset or moved from."""
import re

import flags
import inline

RESET = {'reset', 'release', 'swap', 'clear', 'erase', 'pop_back', 'pop_front', 'pop', 'assign', 'operator='}
NULLABLE_T = re.compile(r'(\*(const)?$)|^(const )?(std::(unique_ptr|shared_ptr|__shared_ptr|weak_ptr|function|optional|thread)|boost::(thread_specific_ptr|shared_ptr|optional))<')


def is_null(f, n):
    n = f.strip_all(n)
    d = f.nodes[n]
    if d['k'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
        return True
    if d['k'] == 'IntegerLiteral' and d.get('iv') == 0:
        return True
    if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXScalarValueInitExpr', 'ImplicitValueInitExpr') and NULLABLE_T.search(f.t(n)):
        a = [x for x in f.args(n) if x >= 0]
        return not a or (len(a) == 1 and is_null(f, a[0]))
    if d['k'] == 'InitListExpr' and NULLABLE_T.search(f.t(n)):
        return not f.kids(n)
    return False


def not_null(f, n):
    """Can the value not be null, whatever the state?"""
    if conditional_cast(f, n) is not None:
        return False
    n = f.strip_all(n)
    d = f.nodes[n]
    k = d['k']
    if k == 'CXXThisExpr' or k == 'StringLiteral' or k == 'LambdaExpr':
        return True
    if k == 'CXXNewExpr':
        return True
    if k == 'UnaryOperator' and d.get('op') == '&':
        return True
    if k == 'CallExpr' and re.match(r'^(std|boost)::(make_unique|make_shared|allocate_shared|addressof)$', d.get('f') or ''):
        return True
    if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and NULLABLE_T.search(f.t(n)):
        a = [x for x in f.args(n) if x >= 0 and f.k(x) != 'CXXDefaultArgExpr']
        return len(a) >= 1 and not_null(f, a[0])
    if k == 'InitListExpr' and len(f.kids(n)) == 1:
        return not_null(f, f.kids(n)[0])
    return False


def null_tests(f, n, val):
    """Paths known not to be null when the atomic condition n evaluated to val, and paths known to be null."""
    n = f.strip_all(n)
    d = f.nodes[n]
    k = d['k']
    if k == 'BinaryOperator' and d.get('op') in ('==', '!=') or k == 'CXXOperatorCallExpr' and d.get('op') in ('==', '!='):
        kids = f.kids(n) if k == 'BinaryOperator' else f.kids(n)[1:]
        if len(kids) == 2:
            for x, y in (kids, kids[::-1]):
                if is_null(f, y) or is_end(f, y):
                    p = key(f, x)
                    if p is not None:
                        return ([p], []) if (d['op'] == '!=') == val else ([], [p])
        return [], []
    if k == 'BinaryOperator' and d.get('op') in ('=',):
        p = key(f, f.kids(n)[0])
        return ([p], []) if val and p else ([], [p] if p else [])
    if k == 'CXXMemberCallExpr':
        name = (d.get('f') or '').split('::')[-1]
        if name in ('operator-conv', 'operator bool', 'has_value') and f.obj(n) is not None:
            p = key(f, f.obj(n))
            return ([p], []) if val and p else ([], [p] if p else [])
    if k in ('DeclRefExpr', 'MemberExpr', 'CXXMemberCallExpr', 'CallExpr', 'UnaryOperator', 'ArraySubscriptExpr', 'CXXOperatorCallExpr'):
        t = f.t(n)
        if NULLABLE_T.search(t):
            p = key(f, n)
            if p is not None:
                return ([p], []) if val else ([], [p])
    return [], []


def is_end(f, n):
    n = f.strip_all(n)
    d = f.nodes[n]
    if f.is_call(n) and (d.get('f') or '').split('::')[-1] in ('end', 'cend', 'rend', 'crend'):
        return True
    if d['k'] == 'DeclRefExpr' and 'v' in d:
        g, v = f.lookup_var(d['v'])
        if v and 'init' in v and not v.get('param') and not g.assigned(d['v']):
            return is_end(g, v['init'])
    return False


def key(f, n):
    """Access path of a nullable expression; getters of smart pointers are looked through."""
    c = conditional_cast(f, n)
    if c is not None:
        p = key(f, f.kids(c)[0])
        return p + ('as ' + f.t(c),) if p else None
    n = f.strip_all(n)
    d = f.nodes[n]
    if d['k'] == 'CXXMemberCallExpr' and (d.get('f') or '').split('::')[-1] in ('get',) and not f.args(n) and f.obj(n) is not None:
        return key(f, f.obj(n))
    if d['k'] == 'BinaryOperator' and d.get('op') == '=':
        return key(f, f.kids(n)[0])
    if d['k'] == 'DeclRefExpr' and 'v' in d:
        g, v = f.lookup_var(d['v'])
        if v and 'init' in v and v['init'] is not None and not v.get('param') and conditional_cast(g, v['init']) is not None:
            return ('v:' + d['v'],)
    p = f.path(n)
    return p


def conditional_cast(f, n):
    """The cast of a pointer that may give null, when n is one."""
    for _ in range(20):
        n = f.strip(n)
        k = f.k(n)
        if k == 'CXXDynamicCastExpr':
            return n if f.t(n).rstrip().endswith('*') else None
        if k.endswith('CastExpr') and f.kids(n):
            n = f.kids(n)[0]
        else:
            return None


def rebase(g, facts_, this, args):
    """Facts about a callee's own paths in terms of the caller's."""
    out = set()
    par = {p['id']: i for i, p in enumerate(g.params)}
    for p in facts_:
        if p[0] == 'this' and this is not None:
            out.add(this + p[1:])
        elif p[0].startswith('::'):
            out.add(p)
        elif p[0].startswith('v:') and p[0][2:] in par and par[p[0][2:]] < len(args) and args[par[p[0][2:]]] is not None:
            out.add(args[par[p[0][2:]]] + p[1:])
    return out


class Nullness:
    def __init__(self, prog, opaque=None):
        self.P = prog
        self.opaque = opaque or (lambda f, n, g: False)
        self.after_memo = {}
        self.pred_memo = {}
        self.busy = set()
        self.solved = {}

    # ---- conditions
    def cond(self, f, n, val, depth=0):
        pos, neg = [], []
        for m, v in flags.decompose(f, n, val):
            a, b = null_tests(f, m, v)
            pos += a
            neg += b
            m = f.strip_all(m)
            if depth < 4:
                d = f.nodes[m]
                if d['k'] == 'DeclRefExpr' and 'v' in d:
                    g, var = f.lookup_var(d['v'])
                    if var and 'init' in var and not var.get('param') and g is f and 'bool' in var['type'] and not f.assigned(d['v']):
                        a, b = self.cond(f, var['init'], v, depth + 1)
                        pos += a
                        neg += b
                elif f.is_call(m) and d.get('fid') in self.P.fns and not d.get('virt'):
                    g = self.P.fns[d['fid']]
                    e = self.returns(g)
                    if e is not None:
                        a, b = self.cond(g, e, v, depth + 1)
                        th, ar = self.frame(f, m)
                        pos += list(rebase(g, a, th, ar))
                        neg += list(rebase(g, b, th, ar))
        return pos, neg

    def returns(self, g):
        """The expression a function that only returns one expression returns."""
        if g.id not in self.pred_memo:
            self.pred_memo[g.id] = None
            rets = [i for i, d in enumerate(g.nodes) if d['k'] == 'ReturnStmt' and g.kids(i)]
            if len(rets) == 1 and g.body is not None and g.body >= 0:
                b = g.kids(g.body)
                if len(b) == 1 and b[0] == rets[0]:
                    self.pred_memo[g.id] = g.kids(rets[0])[0]
        return self.pred_memo[g.id]

    def frame(self, f, n):
        o = f.obj(n)
        this = f.path(o) if o is not None else None
        if this is not None and o is not None and f.k(n) == 'CXXMemberCallExpr':
            m = f.strip(f.kids(n)[0])
            if f.nodes[m].get('arrow') and this != ('this',) and this[-1] != '*':
                this = f._deref(this)
        return this, [f.path(a) if a >= 0 else None for a in f.args(n)]

    # ---- dataflow
    def drop(self, st, p):
        return frozenset(x for x in st if x[:len(p)] != p)

    def assign(self, f, st, p, rhs):
        good = not_null(f, rhs)
        q = key(f, rhs)
        had = q is not None and q in st
        st = self.drop(st, p)
        if good or had:
            st = st | {p}
        if had and self.moves(f, rhs) and q != p:
            st = self.drop(st, q)
        return st

    @staticmethod
    def moves(f, n):
        n = f.strip(n)
        d = f.nodes[n]
        if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and d.get('move'):
            a = f.args(n)
            n = f.strip(a[0]) if a else n
            d = f.nodes[n]
        return d['k'] == 'CallExpr' and d.get('f') == 'std::move'

    def step(self, f, st, e):
        if not isinstance(e, int):
            if isinstance(e, dict) and 'init' in e and 'm' in e and e['init'] >= 0:
                return self.assign(f, st, ('this', e['m'].split('::')[-1]), e['init'])
            return st
        d = f.nodes[e]
        k = d['k']
        if k == 'DeclStmt':
            for v in d.get('vars', ()):
                p = ('v:' + v['id'],)
                if 'init' in v and not v.get('ref'):
                    st = self.assign(f, st, p, v['init'])
                else:
                    st = self.drop(st, p)
            return st
        if k == 'BinaryOperator' and d.get('asg'):
            p = f.path(f.kids(e)[0])
            return self.assign(f, st, p, f.kids(e)[1]) if p else st
        if k == 'CXXOperatorCallExpr' and d.get('op') == '=' and len(f.kids(e)) == 3:
            p = f.path(f.kids(e)[1])
            return self.assign(f, st, p, f.kids(e)[2]) if p else st
        if k in ('CXXOperatorCallExpr', 'UnaryOperator') and d.get('op') in ('++', '--'):
            kids = f.kids(e)[1:] if k == 'CXXOperatorCallExpr' else f.kids(e)
            p = f.path(kids[0]) if kids else None
            return self.drop(st, p) if p else st
        if f.is_call(e):
            o = f.obj(e)
            name = (d.get('f') or '').split('::')[-1]
            if o is not None and name in RESET:
                p = f.path(o)
                if p:
                    if name == 'reset' and f.args(e) and not_null(f, f.args(e)[0]):
                        st = self.drop(st, p) | {p}
                    else:
                        st = self.drop(st, p)
            for a in f.args(e):
                if a >= 0 and self.moves(f, a) and k not in ('CallExpr',):
                    q = key(f, a)
                    if q is not None:
                        st = self.drop(st, q)
                elif a >= 0 and k == 'CallExpr' and d.get('f') != 'std::move' and self.moves(f, a):
                    q = key(f, a)
                    if q is not None:
                        st = self.drop(st, q)
            fid = d.get('fid')
            g = self.P.fns.get(fid)
            if g is not None and not d.get('virt') and g.cfg is not None and not self.opaque(f, e, g):
                th, ar = self.frame(f, e)
                # what the helper changes is no longer known, then what it ensures is
                for p in self.changed(g):
                    for q in rebase(g, [p], th, ar):
                        st = self.drop(st, q)
                st = st | frozenset(rebase(g, self.after(g), th, ar))
        return st

    def edge(self, f, st, blk, lab):
        if lab is not True and lab is not False:
            return st
        pos, neg = self.cond(f, blk.cond, lab)
        for p in neg:
            st = self.drop(st, p)
        return st | frozenset(pos)

    def solve(self, f, init=frozenset()):
        k = (f.id, init)
        if k not in self.solved:
            def transfer(st, blk):
                for e in blk.elems:
                    st = self.step(f, st, e)
                return st
            self.solved[k] = f.cfg.solve(init, transfer, lambda a, b: a & b, lambda s, b, l: self.edge(f, s, b, l))
        return self.solved[k]

    def after(self, g):
        """Facts about the parameters, globals and own object that hold whenever g returns normally."""
        if g.id in self.after_memo:
            return self.after_memo[g.id]
        self.after_memo[g.id] = frozenset()
        if g.id in self.busy or len(self.busy) > 8:
            return frozenset()
        self.busy.add(g.id)
        inn, out = self.solve(g)
        res = None
        for b in g.cfg.normal_exit_preds():
            if b not in out:
                continue
            for s, lab in g.cfg.edges(b):
                if s == g.cfg.exit:
                    o = self.edge(g, out[b], g.cfg.blocks[b], lab)
                    res = o if res is None else res & o
        self.busy.discard(g.id)
        par = {'v:' + p['id'] for p in g.params if g.types[p['t']].endswith('&') or True}
        r = frozenset(x for x in (res or ()) if x[0] == 'this' or x[0].startswith('::') or x[0] in par)
        # a by-value parameter that is assigned no longer speaks of the argument
        r = frozenset(x for x in r if not (x[0].startswith('v:') and g.assigned(x[0][2:]) and not g.types[next(p['t'] for p in g.params if 'v:' + p['id'] == x[0])].endswith('&')))
        self.after_memo[g.id] = r
        return r

    def changed(self, g):
        """Own members that g (with the helpers it calls on its own object) assigns, resets or moves from."""
        m = getattr(self, '_changed', None)
        if m is None:
            m = self._changed = {}
        if g.id in m:
            return m[g.id]
        m[g.id] = set()
        out = set()
        for i, d in enumerate(g.nodes):
            k = d['k']
            p = None
            if k == 'BinaryOperator' and d.get('asg'):
                p = g.path(g.kids(i)[0])
            elif k == 'CXXOperatorCallExpr' and d.get('op') in ('=', '++', '--') and len(g.kids(i)) > 1:
                p = g.path(g.kids(i)[1])
            elif g.is_call(i):
                if g.obj(i) is not None and (d.get('f') or '').split('::')[-1] in RESET:
                    p = g.path(g.obj(i))
                elif d.get('f') == 'std::move' and g.args(i):
                    p = g.path(g.args(i)[0])
                h = self.P.fns.get(d.get('fid'))
                if h is not None and h is not g and inline.own_object(g, i):
                    out |= set(self.changed(h))
            if p is not None and (p[0] == 'this' and len(p) > 1 or p[0].startswith('::')):
                out.add(p)
        m[g.id] = out
        return out

    def at(self, f, n, init=frozenset()):
        """Facts when node n is evaluated."""
        cfg = f.cfg
        if cfg is None:
            return frozenset()
        w = cfg.where(n)
        inn, _ = self.solve(f, init)
        if w is None or w[0] not in inn:
            return None         # not reachable
        st = inn[w[0]]
        for e in cfg.blocks[w[0]].elems[:w[1]]:
            st = self.step(f, st, e)
        return st


def derefs(f, only=None):
    """(node, pointer expression) of every place that dereferences a nullable expression."""
    for i, d in enumerate(f.nodes):
        k = d['k']
        p = None
        if k == 'UnaryOperator' and d.get('op') == '*':
            p = f.kids(i)[0]
        elif k == 'CXXOperatorCallExpr' and d.get('op') in ('*', '->') and len(f.kids(i)) == 2:
            p = f.kids(i)[1]
        elif k == 'CXXOperatorCallExpr' and d.get('op') == '()' and len(f.kids(i)) > 1 and 'std::function<' in f.t(f.strip(f.kids(i)[1])):
            p = f.kids(i)[1]
        elif k == 'MemberExpr' and d.get('arrow') and f.kids(i):
            p = f.kids(i)[0]
            b = f.strip(p)
            if f.k(b) == 'CXXThisExpr' or f.k(b) == 'CXXOperatorCallExpr' and f.nodes[b].get('op') == '->':
                continue
        elif k == 'ArraySubscriptExpr' and f.t(f.strip(f.kids(i)[0])).rstrip().endswith('*'):
            p = f.kids(i)[0]
        elif k == 'CXXMemberCallExpr' and (d.get('f') or '').split('::')[-1] == 'value' and f.obj(i) is not None and 'optional<' in f.t(f.strip(f.obj(i))):
            continue        # throws by itself
        if p is not None:
            yield i, p
