"""Difference bounds between integer variables and container sizes: a forward must analysis.

The state is a set of constraints x - y <= c, where x and y are integer access paths, sizes of containers (('#',) + path) or
zero. Constraints come from tests, assignments, container operations, checking helpers (through their summary at normal
return) and searches whose result was tested. Integers are taken as mathematical integers; an unsigned difference is used
only where it is known not to wrap. Nothing is executed and no path is handed to a solver."""
import re

import flags
import inline

Z = ('0',)
LIMIT = 80          # constants beyond this are dropped, so that every ascending chain is finite
INT_T = re.compile(r'^(const )?(volatile )?(unsigned |signed )?(char|short|int|long|long long|unsigned|bool|char16_t|char32_t|wchar_t)( int)?( &)?$')
CONT_T = re.compile(r'^(const )?(std::(basic_string|basic_string_view|vector|deque|list|stack|queue|priority_queue|map|set|multimap|multiset|unordered_map|unordered_set|array|initializer_list|__cxx11::list|__cxx11::basic_string)\b|boost::(container::)?(vector|circular_buffer)\b)')
STR_T = re.compile(r'^(const )?(std::(__cxx11::)?(basic_string|basic_string_view|string|string_view)\b)')
GROW = {'push_back': 1, 'emplace_back': 1, 'push_front': 1, 'emplace_front': 1, 'push': 1}
SHRINK = {'pop_back', 'pop_front', 'pop'}
PURE = {'size', 'length', 'empty', 'front', 'back', 'top', 'at', 'data', 'c_str', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of',
        'find_last_not_of', 'substr', 'compare', 'capacity', 'reserve', 'shrink_to_fit', 'operator[]', 'count', 'max_size', 'operator-conv'}
FINDS = {'find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'}
NPOS = 2 ** 64 - 1
SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}


def base(t):
    return t.replace('const ', '').replace('volatile ', '').rstrip(' &').strip()


def unsigned(t):
    b = base(t)
    return b.startswith('unsigned') or b in ('char16_t', 'char32_t', 'bool')


def add(d, x, y, c):
    if x == y:
        return
    k = (x, y)
    if abs(c) <= LIMIT and (k not in d or d[k] > c):
        d[k] = c


UNSIGNED = set()        # symbols of unsigned variables
BOOLS = set()           # symbols of truth values (0 or 1)


def nonneg(s):
    return s[0] == '#' or s in UNSIGNED


def closure(d):
    syms = {x for k in d for x in k}
    for s in syms:
        if nonneg(s):
            add(d, Z, s, 0)
        if s in BOOLS:
            add(d, s, Z, 1)
    syms.add(Z)
    syms = sorted(syms)
    out = {}
    for (x, y), c in d.items():
        out.setdefault(x, {})[y] = c
    for k in syms:
        ok = out.get(k)
        if not ok:
            continue
        for i in syms:
            oi = out.get(i)
            if not oi or k not in oi or i == k:
                continue
            a = oi[k]
            for j, b in ok.items():
                if i != j and (j not in oi or oi[j] > a + b):
                    oi[j] = a + b
    return {(x, y): c for x, r in out.items() for y, c in r.items() if abs(c) <= LIMIT}


class Bounds:
    def __init__(self, prog):
        self.P = prog
        self.solved = {}
        self.after_memo = {}
        self.busy = set()
        self.clo = {}
        self.inv = {}
        self.parts = {}
        self.aliased = {}
        self.broken = {}

    # ---- state: (frozenset of ((x, y), c), frozenset of (index symbol, container path, length, kind))
    TOP = (frozenset(), frozenset())

    def closed(self, st):
        k = st[0]
        r = self.clo.get(k)
        if r is None:
            r = self.clo[k] = closure(dict(k))
        return r

    def join(self, a, b):
        if a == b:
            return a
        x, y = self.closed(a), self.closed(b)
        d = {}
        for k, c in x.items():
            if k in y:
                m = max(c, y[k])
            elif k[0] == Z and nonneg(k[1]) and c >= 0 or k[1] == Z and False:
                continue
            else:
                continue
            if abs(m) <= LIMIT:
                d[k] = m
        return (frozenset(d.items()), a[1] & b[1])

    def widen(self, a, b):
        """a is the old state: constraints that got weaker are given up after having been relaxed within a small band."""
        j = self.join(a, b)
        old = self.closed(a)
        return (frozenset((k, c) for k, c in j[0] if k not in old or c <= old[k] or -4 <= c <= 4), j[1])

    def leq(self, st, x, ox, y, oy):
        """Is x + ox <= y + oy known?"""
        if x == y:
            return ox <= oy
        d = self.closed(st)
        c = d.get((x, y))
        if c is not None and c + ox <= oy:
            return True
        if y == Z or x == Z:
            # sizes are never negative
            if x == Z and nonneg(y) and ox <= oy:
                return True
        # through zero: x <= a, 0 <= y
        a = d.get((x, Z), 0 if x == Z else None)
        b = d.get((Z, y), 0 if (y == Z or nonneg(y)) else None)
        return a is not None and b is not None and a + b + ox <= oy

    def forget(self, st, pred):
        d = {k: c for k, c in self.closed(st).items() if not pred(k[0]) and not pred(k[1])}
        return (frozenset(d.items()), frozenset(x for x in st[1] if not pred(x[0]) and not pred(('#',) + x[1])))

    @staticmethod
    def under(p):
        """Symbols that depend on path p."""
        n = len(p)

        def pred(s):
            q = s[1:] if s[0] == '#' else s
            return q[:n] == p
        return pred

    def shift(self, st, s, k):
        """s := s + k"""
        d = {}
        old = self.closed(st)
        if nonneg(s) and (Z, s) not in old:
            old = dict(old)
            old[(Z, s)] = 0
        for (x, y), c in old.items():
            if x == s:
                c += k
            elif y == s:
                c -= k
            if abs(c) <= LIMIT:
                d[(x, y)] = c
        return (frozenset(d.items()), frozenset(x for x in st[1] if x[0] != s and (s[0] != '#' or x[1] != s[1:] or k > 0)))

    def constrain(self, st, x, ox, y, oy):
        """x + ox <= y + oy; None when contradictory."""
        if x == y:
            return st if ox <= oy else None
        d = self.closed(st)
        c = oy - ox
        r = d.get((y, x))
        if r is not None and r + c < 0:
            return None
        if x == Z and nonneg(y) and c < 0:
            pass
        if y == Z and nonneg(x) and c < 0:
            return None
        if abs(c) > LIMIT or d.get((x, y), LIMIT + 1) <= c:
            return st
        d = dict(d)
        d[(x, y)] = c
        # keep the closure
        return (frozenset(closure(d).items()), st[1])

    # ---- expressions
    def cont(self, f, n):
        """Path of a container expression, or None."""
        m = f.strip_all(n)
        p = f.path(m)
        if p is None or '[]' in p:
            return None
        return p

    def difference(self, f, st, n):
        """The two terms of a subtraction that is known not to wrap around, or None."""
        m = f.strip(n)
        while f.k(m) == 'ImplicitCastExpr' and f.kids(m):
            m = f.strip(f.kids(m)[0])
        d = f.nodes[m]
        if d['k'] != 'BinaryOperator' or d.get('op') != '-':
            return None
        x, y = (self.lin(f, st, z) for z in f.kids(m)[:2])
        if x is None or y is None:
            return None
        if unsigned(f.t(m)) and not self.leq(st, y[0], y[1], x[0], x[1]):
            return None
        return x, y

    def lin(self, f, st, n, depth=0):
        """(symbol, offset) or None."""
        if n is None or n < 0 or depth > 12:
            return None
        m = f.strip(n)
        while f.k(m) == 'ImplicitCastExpr' and f.kids(m):
            if 'iv' in f.nodes[m]:
                break
            m = f.strip(f.kids(m)[0])
        d = f.nodes[m]
        if 'iv' in d:
            return (Z, int(d['iv']))
        k = d['k']
        if d.get('exp') and f.kids(m):
            t, s = base(f.t(m)), base(f.t(f.kids(m)[0]))
            if INT_T.match(t) and INT_T.match(s):
                r = self.lin(f, st, f.kids(m)[0], depth + 1)
                if r is not None and unsigned(t) and not unsigned(s) and not self.leq(st, Z, 0, r[0], r[1]):
                    return None
                return r
            return None
        if k in ('BinaryOperator', 'CXXOperatorCallExpr') and d.get('op') in ('+', '-') and not d.get('asg') and k == 'BinaryOperator':
            a, b = (self.lin(f, st, x, depth + 1) for x in f.kids(m)[:2])
            if a is None or b is None:
                return None
            if d['op'] == '+':
                if b[0] == Z:
                    return (a[0], a[1] + b[1])
                if a[0] == Z:
                    return (b[0], a[1] + b[1])
                return None
            if b[0] == Z:
                r = (a[0], a[1] - b[1])
            elif a[0] == b[0]:
                r = (Z, a[1] - b[1])
            else:
                return None
            if unsigned(f.t(m)) and not self.leq(st, Z, 0, r[0], r[1]):
                return None
            return r
        if k == 'UnaryOperator' and d.get('op') == '-':
            a = self.lin(f, st, f.kids(m)[0], depth + 1)
            return (Z, -a[1]) if a is not None and a[0] == Z else None
        if k == 'UnaryOperator' and d.get('op') in ('++', '--'):
            # the operand has been updated by the time the value is used
            a = self.lin(f, st, f.kids(m)[0], depth + 1)
            if a is None:
                return None
            s = 1 if d['op'] == '++' else -1
            return (a[0], a[1] - s) if d.get('post') else a
        if k == 'BinaryOperator' and d.get('op') == '=':
            return self.lin(f, st, f.kids(m)[0], depth + 1)
        if k == 'CXXMemberCallExpr':
            name = (d.get('f') or '').split('::')[-1]
            if name in ('size', 'length') and f.obj(m) is not None and not f.args(m):
                if not CONT_T.match(f.t(f.strip_all(f.obj(m)))) and self.P.fns.get(d.get('fid')) is not None:
                    return None
                s = self.size_of(f, st, f.obj(m))
                return s
        if f.is_call(m) and (d.get('f') in ('std::size',)) and f.args(m):
            return self.size_of(f, st, f.args(m)[0])
        if f.is_call(m) and d.get('f') in ('std::move', 'std::forward') and f.args(m):
            return self.lin(f, st, f.args(m)[0], depth + 1)
        if f.is_call(m) and k == 'CallExpr' and len(f.args(m)) == 1:
            # the size of the argument, through a helper
            g = self.P.fns.get(d.get('fid'))
            e = self.returned(g) if g is not None else None
            e = g.strip_all(e) if e is not None else None
            if e is not None and g.k(e) == 'CXXMemberCallExpr' and (g.nodes[e].get('f') or '').split('::')[-1] in ('size', 'length') and not g.args(e):
                q = g.path(g.obj(e))
                if q is not None and len(q) == 1 and q[0].startswith('v:') and [v for v in g.d['params']] and CONT_T.match(g.t(g.strip_all(g.obj(e)))):
                    return self.size_of(f, st, f.args(m)[0])
        if f.is_call(m) and k in ('CallExpr', 'CXXMemberCallExpr'):
            g = self.P.fns.get(d.get('fid'))
            if g is not None and not d.get('virt') and not f.args(m):
                e = self.returned(g)
                if e is not None and (k == 'CallExpr' or inline.own_object(f, m)):
                    return self.lin(g, st, e, depth + 4)
        if INT_T.match(base(f.t(m)) + ''):
            p = f.path(m)
            if p is not None and '[]' not in p:
                if unsigned(f.t(m)) and p[0].startswith('v:') and len(p) == 1:
                    UNSIGNED.add(p)
                    if base(f.t(m)) == 'bool':
                        BOOLS.add(p)
                return (p, 0)
        return None

    def upper(self, f, n, depth=0):
        """Largest value of an expression that follows from its form (and that it is not negative), or None."""
        m = f.strip(n)
        d = f.nodes[m]
        if depth > 6:
            return None
        if 'iv' in d:
            return int(d['iv']) if int(d['iv']) >= 0 else None
        if d['k'] == 'ImplicitCastExpr' or d.get('exp') and f.kids(m):
            t = base(f.t(m))
            u = self.upper(f, f.kids(m)[0], depth + 1)
            if u is not None:
                return u
            return {'unsigned char': 255, 'bool': 1}.get(t, {'unsigned char': 255, 'bool': 1}.get(base(f.t(f.kids(m)[0]))))
        if d['k'] == 'BinaryOperator' and d.get('op') == '&':
            us = [self.upper(f, x, depth + 1) for x in f.kids(m)[:2]]
            us = [u for u in us if u is not None]
            return min(us) if us else None
        if d['k'] == 'BinaryOperator' and d.get('op') == '>>':
            u, v = self.upper(f, f.kids(m)[0], depth + 1), f.nodes[f.strip(f.kids(m)[1])].get('iv')
            return u >> int(v) if u is not None and v is not None else None
        if d['k'] == 'BinaryOperator' and d.get('op') == '%' and unsigned(f.t(m)):
            u = self.upper(f, f.kids(m)[1], depth + 1)
            return u - 1 if u else None
        if f.is_call(m) and len(f.args(m)) == 1 and f.t(f.strip_all(f.args(m)[0])) and self.enum_max(f, f.args(m)[0]) is not None and (d.get('f') or '').split('::')[-1] in ('toUnderlying', 'to_underlying'):
            return self.enum_max(f, f.args(m)[0])
        if d['k'] in ('CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr') and f.kids(m):
            return self.enum_max(f, f.kids(m)[0])
        return {'unsigned char': 255, 'bool': 1}.get(base(f.t(m)))

    def enum_max(self, f, n):
        t = base(f.t(f.strip_all(n)))
        en = self.P.enums.get(t)
        if not en:
            return None
        try:
            vs = [int(x[1]) for x in en['vals']]
        except Exception:
            return None
        return max(vs) if vs and min(vs) >= 0 else None

    def returned(self, g):
        if g.cfg is None:
            return None
        rs = [n for n in g.all_nodes() if g.k(n) == 'ReturnStmt']
        if len(rs) == 1 and g.kids(rs[0]) and not any(g.k(n) in ('IfStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt', 'CXXForRangeStmt', 'ConditionalOperator', 'CXXTryStmt', 'DeclStmt') or g.k(n) == 'BinaryOperator' and g.nodes[n].get('op') in ('&&', '||', '=') for n in g.all_nodes()):
            return g.kids(rs[0])[0]
        return None

    def size_of(self, f, st, n):
        """The size of a container expression as (symbol, offset), or None."""
        m = f.strip_all(n)
        d = f.nodes[m]
        if d['k'] == 'StringLiteral':
            return (Z, len(d['s'])) if 's' in d and len(d['s']) < 200 else None
        if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr') and STR_T.search(f.t(m)):
            a = [x for x in f.args(m) if x >= 0 and f.k(x) != 'CXXDefaultArgExpr'] if d['k'] != 'CXXFunctionalCastExpr' else f.kids(m)[:1]
            if not a:
                return (Z, 0)
            if len(a) == 1:
                return self.size_of(f, st, a[0])
            if len(a) == 2 and INT_T.match(base(f.t(a[1]))) and INT_T.match(base(f.t(a[0]))):
                return self.lin(f, st, a[0])
            return None
        if f.is_call(m) and d.get('f') in ('std::move', 'std::forward') and f.args(m):
            return self.size_of(f, st, f.args(m)[0])
        if d['k'] == 'CXXMemberCallExpr' and (d.get('f') or '').split('::')[-1] == 'operator-conv' and f.obj(m) is not None:
            return self.size_of(f, st, f.obj(m))
        p = self.cont(f, m)
        if p is None:
            return None
        t = f.t(m)
        a = re.match(r'^(?:const )?std::array<.*, (\d+)>', t)
        if a:
            return (Z, int(a.group(1)))
        a = re.search(r'\[(\d+)\]$', t)
        if a:
            return (Z, int(a.group(1)))
        return (('#',) + p, 0)

    # ---- transfer
    def assign(self, f, st, p, rhs):
        """Integer variable p := rhs."""
        m = f.strip_all(rhs)
        v = self.lin(f, st, rhs)
        kind = self.search(f, st, m)
        mod = None
        d = f.nodes[m]
        if d['k'] == 'BinaryOperator' and d.get('op') == '%':
            mod = self.lin(f, st, f.kids(m)[1])
        if d['k'] == 'ConditionalOperator':
            st2 = self.conditional(f, st, p, m)
            if st2 is not None:
                return st2
        if v is None and d['k'] == 'BinaryOperator' and d.get('op') in ('+', '-'):
            st2 = self.factored(f, st, p, m)
            if st2 is not None:
                return st2
        if v is not None and v[0] == p:
            return self.shift(st, p, v[1])
        st = self.forget(st, self.under(p))
        if v is not None:
            st = self.constrain(st, p, 0, v[0], v[1]) or st
            st = self.constrain(st, v[0], v[1], p, 0) or st
        if mod is not None and mod[0] != p:
            st = self.constrain(st, p, 1, mod[0], mod[1]) or st
        if kind is not None:
            st = (st[0], st[1] | {(p,) + kind})
        return st

    def factored(self, f, st, p, m):
        """p = a - b, where b may be a condition times a value."""
        op = f.nodes[m]['op']
        a, b = f.kids(m)[:2]
        t = f.strip_all(b)
        cases = [(st, b)]
        if f.k(t) == 'BinaryOperator' and f.nodes[t].get('op') == '*':
            for q, e in (f.kids(t)[:2], f.kids(t)[1::-1]):
                c = f.strip_all(q)
                if base(f.t(c)) == 'bool':
                    cases = [(self.cond(f, st, c, True), e), (self.cond(f, st, c, False), None)]
                    break
        res = None
        for s, e in cases:
            if s is None:
                continue
            x = self.lin(f, s, a)
            y = self.lin(f, s, e) if e is not None else (Z, 0)
            if x is None or y is None:
                return None
            if y[0] == Z:
                v = (x[0], x[1] + y[1] if op == '+' else x[1] - y[1])
            elif op == '-':
                k = self.closed(s)
                k1, k2 = k.get((x[0], y[0])), k.get((y[0], x[0]))
                if k1 is None or k2 is None or k1 != -k2:
                    return None
                v = (Z, k1 + x[1] - y[1])
            else:
                return None
            if v[0] == p:
                s = self.shift(s, p, v[1])
            else:
                s = self.forget(s, self.under(p))
                s = self.constrain(s, p, 0, v[0], v[1]) or s
                s = self.constrain(s, v[0], v[1], p, 0) or s
            res = s if res is None else self.join(res, s)
        return res

    def conditional(self, f, st, p, m):
        c, a, b = f.kids(m)[:3]
        res = None
        for x, val in ((a, True), (b, False)):
            s = self.cond(f, st, c, val)
            if s is None:
                continue
            s = self.assign(f, s, p, x)
            res = s if res is None else self.join(res, s)
        return res

    def search(self, f, st, m):
        """(container path, length) when m is a search whose result, unless npos, leaves at least length elements."""
        d = f.nodes[m]
        if d['k'] == 'CXXMemberCallExpr' and (d.get('f') or '').split('::')[-1] in FINDS and f.obj(m) is not None and STR_T.search(f.t(f.strip_all(f.obj(m)))) and f.args(m):
            p = self.cont(f, f.obj(m))
            if p is None:
                return None
            name = d['f'].split('::')[-1]
            n = 1
            if name in ('find', 'rfind'):
                s = self.size_of(f, st, f.args(m)[0])
                n = s[1] if s is not None and s[0] == Z else 1 if INT_T.match(base(f.t(f.args(m)[0]))) else 0
            return (p, n)
        return None

    def set_size(self, st, p, v):
        """Container p replaced; its size is v (symbol, offset) or unknown."""
        s = ('#',) + p
        if v is not None and v[0] == s:
            return st
        st = self.forget(st, self.under(p))
        if v is not None and not self.under(p)(v[0]):
            st = self.constrain(st, s, 0, v[0], v[1]) or st
            st = self.constrain(st, v[0], v[1], s, 0) or st
        return st

    def construct(self, f, st, p, t, init):
        """Container p initialised from init."""
        if init is None:
            return self.set_size(st, p, (Z, 0))
        m = f.strip_all(init)
        d = f.nodes[m]
        if d['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and not (d.get('copy') or d.get('move')):
            a = [x for x in f.args(m) if x >= 0 and f.k(x) != 'CXXDefaultArgExpr']
            if not a:
                return self.set_size(st, p, (Z, 0))
            if INT_T.match(base(f.t(f.strip(a[0])))) and not STR_T.search(t):
                v = self.lin(f, st, a[0])
                if v is None:
                    # a signed count converted: never smaller than the count itself
                    m = f.strip_all(a[0])
                    while f.nodes[m].get('exp') and f.kids(m):
                        m = f.strip_all(f.kids(m)[0])
                    v = self.lin(f, st, m)
                    st = self.set_size(st, p, None)
                    return self.constrain(st, v[0], v[1], ('#',) + p, 0) or st if v is not None else st
                return self.set_size(st, p, v)
            return self.set_size(st, p, self.size_of(f, st, m))
        if d['k'] in ('CXXConstructExpr',) and (d.get('copy') or d.get('move')):
            return self.construct(f, st, p, t, f.args(m)[0])
        if d['k'] == 'InitListExpr' and not STR_T.search(t):
            return self.set_size(st, p, (Z, len(f.kids(m))))
        if d['k'] == 'CXXMemberCallExpr' and d.get('f', '').endswith('::substr') and f.args(m):
            return self.set_size(st, p, None)
        return self.set_size(st, p, self.size_of(f, st, m))

    def step(self, f, st, e):
        if not isinstance(e, int):
            if isinstance(e, dict) and 'init' in e and 'm' in e and e['init'] is not None and e['init'] >= 0:
                p = ('this', e['m'].split('::')[-1])
                n = e['init']
                t = f.t(f.strip(n))
                if CONT_T.match(t):
                    return self.construct(f, st, p, t, n)
                if INT_T.match(base(t)):
                    return self.assign(f, st, p, n)
            return st
        d = f.nodes[e]
        k = d['k']
        if k == 'DeclStmt':
            for v in d.get('vars', ()):
                if v.get('ref') or v.get('static'):
                    continue
                p = ('v:' + v['id'],)
                t = v.get('type') or (f.vars.get(v['id']) or {}).get('type', '')
                if CONT_T.match(t):
                    st = self.construct(f, st, p, t, v.get('init'))
                elif INT_T.match(base(t)):
                    st = self.assign(f, st, p, v['init']) if 'init' in v else self.forget(st, self.under(p))
            return st
        if k == 'BinaryOperator' and d.get('asg') or k == 'CompoundAssignOperator':
            l, r = f.kids(e)[:2]
            p = f.path(l)
            if p is None or '[]' in p:
                return st
            op = d['op']
            if op == '=':
                return self.assign(f, st, p, r) if INT_T.match(base(f.t(l))) else self.forget(st, self.under(p))
            v = self.lin(f, st, r)
            if op in ('+=', '-=') and v is not None and v[0] == Z:
                c = v[1] if op == '+=' else -v[1]
                if c < 0 and unsigned(f.t(l)) and not self.leq(st, Z, -c, p, 0):
                    return self.forget(st, self.under(p))
                return self.shift(st, p, c)
            if op == '+=' and v is not None and self.leq(st, Z, 0, v[0], v[1]):
                # grows: keep lower bounds only
                return self.keep_lower(st, p)
            if op == '%=' and v is not None:
                st = self.forget(st, self.under(p))
                return self.constrain(st, p, 1, v[0], v[1]) or st
            return self.forget(st, self.under(p))
        if k == 'UnaryOperator' and d.get('op') in ('++', '--'):
            p = f.path(f.kids(e)[0])
            if p is None or '[]' in p:
                return st
            if d['op'] == '--' and unsigned(f.t(f.kids(e)[0])) and not self.leq(st, Z, 1, p, 0):
                return self.forget(st, self.under(p))
            return self.shift(st, p, 1 if d['op'] == '++' else -1)
        if k == 'CXXOperatorCallExpr' and d.get('op') in ('=', '+=') and len(f.kids(e)) == 3:
            l, r = f.kids(e)[1:3]
            p = f.path(l)
            if p is None:
                return st
            if CONT_T.match(f.t(f.strip_all(l))) and '[]' not in p:
                if d['op'] == '=':
                    return self.construct(f, st, p, f.t(f.strip_all(l)), r) if not self.mentions(f, r, p) else self.forget(st, self.under(p))
                g = self.size_of(f, st, r) if not INT_T.match(base(f.t(r))) else (Z, 1)
                return self.shift(st, ('#',) + p, g[1]) if g is not None and g[0] == Z else self.keep_lower(st, ('#',) + p)
            if '[]' in p:
                p = p[:p.index('[]')]
                return st if p else st
            return self.forget(st, self.under(p))
        if f.is_call(e):
            return self.call(f, st, e)
        return st

    def mentions(self, f, n, p):
        return any(f.path(x) == p for x in f.walk(n) if f.k(x) in ('DeclRefExpr', 'MemberExpr'))

    def keep_lower(self, st, s):
        d = {k: c for k, c in self.closed(st).items() if k[0] != s}
        return (frozenset(d.items()), frozenset(x for x in st[1] if x[0] != s))

    def call(self, f, st, e):
        d = f.nodes[e]
        name = (d.get('f') or '').split('::')[-1]
        o = f.obj(e)
        std = (d.get('f') or '').startswith(('std::', 'boost::'))
        if o is not None and CONT_T.match(f.t(f.strip_all(o))) and std:
            p = self.cont(f, o)
            if p is not None:
                s = ('#',) + p
                if name in GROW:
                    st = self.shift(st, s, 1)
                elif name in SHRINK:
                    st = self.shift(st, s, -1)
                elif name == 'clear':
                    st = self.set_size(st, p, (Z, 0))
                elif name in ('resize', 'assign') and f.args(e) and INT_T.match(base(f.t(f.strip(f.args(e)[0])))):
                    st = self.set_size(st, p, self.lin(f, st, f.args(e)[0]))
                elif name == 'remove_prefix' or name == 'remove_suffix':
                    v = self.lin(f, st, f.args(e)[0])
                    st = self.shift(st, s, -v[1]) if v is not None and v[0] == Z else self.set_size(st, p, None)
                elif name in ('insert', 'emplace', 'append', 'try_emplace', 'insert_or_assign'):
                    st = self.keep_lower(st, s)
                elif name == 'operator[]' and re.search(r'map<', f.t(f.strip_all(o))):
                    st = self.keep_lower(st, s)
                elif name not in PURE and not (d.get('constm') or name.startswith('operator')):
                    st = self.set_size(st, p, None)
        pt = f.ptypes(e)
        moved = d.get('f') == 'std::move' and f.args(e)
        # objects handed over by reference that is not const, by address, or moved from
        for i, a in enumerate(f.args(e)):
            if a < 0:
                continue
            m = f.strip_all(a)
            p = None
            if f.k(m) == 'UnaryOperator' and f.nodes[m].get('op') == '&':
                p = f.path(f.kids(m)[0])
            elif i < len(pt) and pt[i].endswith('&') and not pt[i].startswith('const ') and not (moved or d.get('f') in ('std::forward', 'std::as_const', 'std::size', 'std::begin', 'std::end')):
                p = f.path(m)
                if f.is_call(m) and f.nodes[m].get('f') in ('std::move', 'std::forward') and f.args(m):
                    p = f.path(f.args(m)[0])
                elif pt[i].endswith('&&') and not (f.is_call(m) and f.nodes[m].get('f') == 'std::move'):
                    p = None
            if p is not None and '[]' not in p:
                g0 = self.P.fns.get(d.get('fid'))
                eff = self.param_effect(g0, i) if g0 is not None else None
                if eff == 'keeps':
                    continue
                if eff == 'grows':
                    st = self.keep_lower(st, p)
                    continue
                st = self.forget(st, self.under(p))
        ts = [g for g in self.P.targets(f, e) if g.cfg is not None]
        if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()' and not ts:
            lam = inline.local_lambda(self.P, f, f.kids(e)[1])
            ts = [lam] if lam else []
        if ts:
            own = inline.own_object(f, e)
            lam = d['k'] == 'CXXOperatorCallExpr' and ts[0].parent_id
            if own or lam:
                ch = set()
                for g in ts:
                    ch |= self.changes(g)
                for p in ch:
                    if p[0] == 'this' or p[0].startswith('::') or lam:
                        st = self.forget(st, self.under(p))
            elif o is not None:
                p = f.path(o)
                if p is not None and '[]' not in p and any(self.changes(g) for g in ts):
                    st = self.forget(st, self.under(p))
            if own and self.inv and all(g.cls in self.inv and (g.d.get('access') != 'private' or g.d.get('virt')) and not g.parent_id for g in ts):
                for (x, y), c in self.inv[ts[0].cls].items():
                    st = self.constrain(st, x, 0, y, c) or st
            if len(ts) == 1 and not d.get('virt'):
                for (x, y), c in self.after(ts[0]):
                    a, b = self.rebase(f, st, e, ts[0], x), self.rebase(f, st, e, ts[0], y)
                    if a is not None and b is not None:
                        st = self.constrain(st, a[0], a[1], b[0], b[1] + c)
                        if st is None:
                            return None     # the call does not return from here
        return st

    def param_effect(self, g, i, depth=0):
        """What g does to an integer or container passed by reference: 'keeps' it, only 'grows' it, or unknown (None)."""
        if g.cfg is None or i >= len(g.params) or depth > 4:
            return None
        m = getattr(self, '_pe', None)
        if m is None:
            m = self._pe = {}
        k = (g.id, i)
        if k in m:
            return m[k]
        m[k] = None
        vid = g.params[i]['id']
        p = ('v:' + vid,)
        eff = 'keeps'
        for n in g.all_nodes():
            d = g.nodes[n]
            if d['k'] == 'DeclRefExpr' and d.get('v') == vid:
                up, cur = g.parents.get(n), n
                while up is not None and g.k(up) in ('ParenExpr',):
                    up, cur = g.parents.get(up), up
                u = g.nodes[up] if up is not None else {'k': ''}
                if u['k'] == 'ImplicitCastExpr':
                    continue
                if u['k'] == 'UnaryOperator' and u.get('op') == '++':
                    eff = 'grows' if eff else None
                    continue
                if u['k'] == 'CompoundAssignOperator' and u.get('op') == '+=' and g.kids(up)[0] == cur and (unsigned(g.t(g.kids(up)[1])) or int(g.nodes[g.strip(g.kids(up)[1])].get('iv', -1)) >= 0):
                    eff = 'grows' if eff else None
                    continue
                if up is not None and g.is_call(up):
                    h = self.P.fns.get(u.get('fid'))
                    j = [x for x, a in enumerate(g.args(up)) if a == n]
                    if u['k'] == 'CXXMemberCallExpr' and (u.get('f') or '').split('::')[-1] in PURE:
                        continue
                    if j and j[0] < len(g.ptypes(up)) and g.ptypes(up)[j[0]].startswith('const '):
                        continue
                    if h is not None and j:
                        x = self.param_effect(h, j[0], depth + 1)
                        if x == 'keeps':
                            continue
                        if x == 'grows':
                            eff = 'grows' if eff else None
                            continue
                elif u['k'] == 'MemberExpr' or u['k'] == 'CXXOperatorCallExpr':
                    gp = g.parents.get(up)
                    if u['k'] == 'MemberExpr' and gp is not None and g.is_call(gp) and (g.nodes[gp].get('f') or '').split('::')[-1] in PURE:
                        continue
                eff = None
                break
        m[k] = eff
        return eff

    def changes(self, g, depth=0):
        """Own members, globals (and captured variables, for a lambda) that g may change."""
        m = getattr(self, '_ch', None)
        if m is None:
            m = self._ch = {}
        if g.id in m:
            return m[g.id]
        m[g.id] = set()
        out = set()
        local = {'v:' + p['id'] for p in g.params} | {'v:' + v for v in g.vars}

        def note(p):
            if p is None:
                return
            if '[]' in p:
                return
            if p[0] in local and p[0].startswith('v:'):
                return
            out.add(p)
        for n in g.all_nodes():
            d = g.nodes[n]
            k = d['k']
            if (k == 'BinaryOperator' and d.get('asg')) or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and d.get('op') in ('++', '--'):
                note(g.path(g.kids(n)[0]))
            elif k == 'CXXOperatorCallExpr' and d.get('op') in ('=', '+=', '++', '--') and len(g.kids(n)) > 1:
                note(g.path(g.kids(n)[1]))
            elif g.is_call(n):
                name = (d.get('f') or '').split('::')[-1]
                o = g.obj(n)
                if o is not None and CONT_T.match(g.t(g.strip_all(o))) and name not in PURE and not name.startswith('operator'):
                    note(g.path(o))
                for i, a in enumerate(g.args(n)):
                    pt = g.ptypes(n)
                    if a >= 0 and i < len(pt) and pt[i].endswith('&') and not pt[i].startswith('const '):
                        x = g.strip_all(a)
                        if g.is_call(x) and g.nodes[x].get('f') in ('std::move', 'std::forward') and g.args(x):
                            x = g.args(x)[0]
                        p = g.path(x)
                        if p is not None and p != ('this',) and p != ('this', '*'):
                            h = self.P.fns.get(d.get('fid'))
                            if h is None or self.param_effect(h, i) != 'keeps':
                                note(p)
                for h in self.P.targets(g, n):
                    if h is g or h.cfg is None:
                        continue
                    if inline.own_object(g, n) or h.parent_id == g.id:
                        out |= {p for p in self.changes(h) if not (p[0].startswith('v:') and p[0] in local)}
        m[g.id] = out
        return out

    def rebase(self, f, st, e, g, s):
        """A symbol of the callee in terms of the caller: (symbol, offset) or None."""
        if s == Z:
            return (Z, 0)
        size = s[0] == '#'
        p = s[1:] if size else s
        if p[0] == 'this':
            if inline.own_object(f, e) or f.k(e) == 'CXXOperatorCallExpr':
                return (s, 0)
            o = f.obj(e)
            b = f.path(o) if o is not None else None
            if b is None:
                return None
            m = f.strip(f.kids(e)[0])
            if f.nodes[m].get('arrow') and b != ('this',):
                b = f._deref(b)
            q = b + p[1:]
            return ((('#',) + q) if size else q, 0)
        if p[0].startswith('::'):
            return (s, 0)
        if p[0].startswith('v:'):
            for i, a in enumerate(g.params):
                if 'v:' + a['id'] == p[0]:
                    x = f.args(e)[i] if i < len(f.args(e)) else None
                    if x is None or x < 0:
                        return None
                    if len(p) == 1:
                        return self.size_of(f, st, x) if size else self.lin(f, st, x)
                    b = f.path(x)
                    if b is None or '[]' in b:
                        return None
                    q = b + p[1:]
                    return ((('#',) + q) if size else q, 0)
            if f.k(e) == 'CXXOperatorCallExpr':
                return (s, 0)
        return None

    def speaks(self, g, s):
        """Does symbol s of g speak of the caller's values at return?"""
        if s == Z:
            return True
        p = s[1:] if s[0] == '#' else s
        if p[0] == 'this' or p[0].startswith('::'):
            return True
        for a in g.params:
            if 'v:' + a['id'] == p[0]:
                t = g.types[a['t']]
                return t.endswith('&') or not g.assigned(a['id']) and not self.changed_by(g, p)
        return g.parent_id is not None

    def changed_by(self, g, p):
        return any(g.obj(n) is not None and g.path(g.obj(n)) == p and (g.nodes[n].get('f') or '').split('::')[-1] not in PURE for n in g.calls())

    def after(self, g):
        """Constraints that hold whenever g returns normally (in its own terms)."""
        if g.id in self.after_memo:
            return self.after_memo[g.id]
        if g.cfg is None or len(g.cfg.blocks) > 60:
            self.after_memo[g.id] = ()
            return ()
        if g.id in self.busy or len(self.busy) > 4:
            self.cut = True
            return ()
        self.busy.add(g.id)
        o = self.exit_state(g, self.entry(g) if g.cls in self.inv else None)
        self.busy.discard(g.id)
        r = ()
        if o is not None:
            r = tuple((k, c) for k, c in self.closed(o).items() if self.speaks(g, k[0]) and self.speaks(g, k[1]))
        self.after_memo[g.id] = r
        return r

    def exit_state(self, g, init=None):
        inn, out = self.solve(g, init or self.TOP)
        res = None
        for b in g.cfg.normal_exit_preds():
            if b not in out:
                continue
            for s, lab in g.cfg.edges(b):
                if s == g.cfg.exit:
                    o = self.edge(g, out[b], g.cfg.blocks[b], lab)
                    if o is not None:
                        res = o if res is None else self.join(res, o)
        return res

    # ---- conditions
    def edge(self, f, st, blk, lab):
        if lab in (True, False) and blk.cond is not None:
            # the statement that decides is the last one evaluated in the block
            return self.cond(f, st, flags.last(f, blk.cond), lab)
        if isinstance(lab, tuple) and lab[0] == 'case' and lab[1] is not None and f.k(lab[1]) == 'CaseStmt':
            n = f.nodes[blk.term].get('cond')
            iv = f.nodes[f.nodes[lab[1]]['lhs']].get('iv')
            v = self.lin(f, st, n) if n is not None else None
            if v is not None and iv is not None:
                st2 = self.constrain(st, v[0], v[1], Z, int(iv))
                return self.constrain(st2, Z, int(iv), v[0], v[1]) if st2 is not None else None
        return st

    def cond(self, f, st, n, val, depth=0):
        if n is None or depth > 8:
            return st
        n = f.strip(n)
        while f.k(n) == 'ImplicitCastExpr' and f.kids(n):
            n = f.strip(f.kids(n)[0])
        d = f.nodes[n]
        k = d['k']
        if d.get('exp') and f.kids(n) and base(f.t(n)) == 'bool':
            return self.cond(f, st, f.kids(n)[0], val, depth + 1)
        if k == 'UnaryOperator' and d.get('op') == '!':
            return self.cond(f, st, f.kids(n)[0], not val, depth + 1)
        if k == 'BinaryOperator' and d.get('op') == ',':
            return self.cond(f, st, f.kids(n)[1], val, depth + 1)
        if k == 'BinaryOperator' and d.get('op') in ('&&', '||'):
            a, b = f.kids(n)[:2]
            if (d['op'] == '&&') == val:
                s = self.cond(f, st, a, val, depth + 1)
                return self.cond(f, s, b, val, depth + 1) if s is not None else None
            x = self.cond(f, st, a, val, depth + 1)
            y = self.cond(f, st, a, not val, depth + 1)
            y = self.cond(f, y, b, val, depth + 1) if y is not None else None
            return y if x is None else x if y is None else self.join(x, y)
        if k == 'ConditionalOperator':
            c, a, b = f.kids(n)[:3]
            res = None
            for x, v in ((a, True), (b, False)):
                s = self.cond(f, st, c, v, depth + 1)
                s = self.cond(f, s, x, val, depth + 1) if s is not None else None
                if s is not None:
                    res = s if res is None else self.join(res, s)
            return res
        if 'iv' in d:
            return st if bool(int(d['iv'])) == val else None
        op = d.get('op')
        if k == 'BinaryOperator' and op in NEG:
            a, b = f.kids(n)[:2]
            return self.compare(f, st, op if val else NEG[op], a, b)
        if k == 'CXXOperatorCallExpr' and op in ('==', '!=') and len(f.kids(n)) == 3 and CONT_T.match(f.t(f.strip_all(f.kids(n)[1]))):
            # text compared with a literal: equal means that long
            if (op == '==') == val:
                x, y = (self.size_of(f, st, m) for m in f.kids(n)[1:3])
                if x is not None and y is not None:
                    s = self.constrain(st, x[0], x[1], y[0], y[1])
                    return self.constrain(s, y[0], y[1], x[0], x[1]) if s is not None else None
            else:
                x, y = (self.size_of(f, st, m) for m in f.kids(n)[1:3])
                for u, v in ((x, y), (y, x)):
                    if u == (Z, 0) and v is not None:
                        return self.constrain(st, Z, 1, v[0], v[1])
            return st
        if f.is_call(n):
            name = (d.get('f') or '').split('::')[-1]
            o = f.obj(n)
            if name == 'empty' and o is not None and not f.args(n) and CONT_T.match(f.t(f.strip_all(o))):
                s = self.size_of(f, st, o)
                if s is None:
                    return st
                return self.constrain(st, s[0], s[1], Z, 0) if val else self.constrain(st, Z, 1, s[0], s[1])
            if name in ('startsWith', 'endsWith', 'starts_with', 'ends_with') and val and f.args(n):
                t = o if name.endswith('_with') and o is not None else f.args(n)[0]
                a = f.args(n)[-1]
                x = self.size_of(f, st, t)
                y = (Z, 1) if INT_T.match(base(f.t(f.strip(a)))) else self.size_of(f, st, a)
                if x is not None and y is not None:
                    return self.constrain(st, y[0], y[1], x[0], x[1])
                return st
            if name == 'contains' and val and f.args(n) and len(f.args(n)) == 2 and STR_T.search(f.t(f.strip_all(f.args(n)[0]))):
                x = self.size_of(f, st, f.args(n)[0])
                a = f.args(n)[1]
                y = (Z, 1) if INT_T.match(base(f.t(f.strip(a)))) else self.size_of(f, st, a)
                if x is not None and y is not None:
                    return self.constrain(st, y[0], y[1], x[0], x[1])
                return st
            g = self.P.fns.get(d.get('fid'))
            if k == 'CXXOperatorCallExpr' and op == '()' and g is None:
                g = inline.local_lambda(self.P, f, f.kids(n)[1])
            if g is not None and not d.get('virt') and g.cfg is not None and len(g.cfg.blocks) < 30 and base(f.t(n)) == 'bool' and len(self.busy) < 4 and g.id not in self.busy:
                for (x, y), c in self.when(g, val):
                    a, b = self.rebase(f, st, n, g, x), self.rebase(f, st, n, g, y)
                    if a is not None and b is not None:
                        s2 = self.constrain(st, a[0], a[1], b[0], b[1] + c)
                        st = s2 if s2 is not None else st
                return st
        if base(f.t(n)) == 'bool' and k in ('DeclRefExpr', 'MemberExpr'):
            x = self.lin(f, st, n)
            if x is not None and x[0] != Z:
                st = self.constrain(st, Z, 1, x[0], x[1]) if val else self.constrain(st, x[0], x[1], Z, 0)
                if st is None:
                    return None
        if k == 'DeclRefExpr' and 'v' in d and base(f.t(n)) == 'bool':
            ff, v = f.lookup_var(d['v'])
            if v and not v.get('param') and 'init' in v and not f.assigned(d['v']) and self.stable(f, v['init']):
                return self.cond(ff, st, v['init'], val, depth + 2)
        if INT_T.match(base(f.t(n))) and base(f.t(n)) != 'bool':
            x = self.lin(f, st, n)
            if x is not None and not val:
                s = self.constrain(st, x[0], x[1], Z, 0)
                return self.constrain(s, Z, 0, x[0], x[1]) if s is not None else None
            if x is not None and val and (unsigned(f.t(n)) or self.leq(st, Z, 0, x[0], x[1])):
                return self.constrain(st, Z, 1, x[0], x[1])
        return st

    def stable(self, f, init):
        """Do the values the test speaks of stay the same for the rest of the function?"""
        for x in f.walk(init):
            d = f.nodes[x]
            if d['k'] == 'DeclRefExpr' and 'v' in d and not f.t(x).startswith('const '):
                if f.assigned(d['v']) or self.mutated(f, ('v:' + d['v'],)):
                    return False
            if d['k'] == 'MemberExpr' and d.get('fld') and not f.t(x).startswith('const '):
                p = f.path(x)
                if p is None or any(q[:len(p)] == p or p[:len(q)] == q for q in self.changes(f)):
                    return False
        return True

    def mutated(self, f, p):
        for n in f.calls():
            o = f.obj(n)
            if o is not None and f.path(o) == p and (f.nodes[n].get('f') or '').split('::')[-1] not in PURE and not (f.nodes[n].get('f') or '').split('::')[-1].startswith('operator'):
                return True
            pt = f.ptypes(n)
            for i, a in enumerate(f.args(n)):
                if a >= 0 and i < len(pt) and pt[i].endswith('&') and not pt[i].startswith('const ') and f.path(a) == p:
                    return True
        return False

    def when(self, g, val):
        """Constraints that hold when a predicate returns val."""
        m = getattr(self, '_when', None)
        if m is None:
            m = self._when = {}
        k = (g.id, val)
        if k in m:
            return m[k]
        m[k] = ()
        self.busy.add(g.id)
        inn, out = self.solve(g, self.TOP)
        res = None
        for b in g.cfg.normal_exit_preds():
            if b not in inn:
                continue
            blk = g.cfg.blocks[b]
            st = inn[b]
            for e in blk.elems:
                st = self.step(g, st, e)
                if st is None:
                    break
                if isinstance(e, int) and g.k(e) == 'ReturnStmt' and g.kids(e):
                    st = self.cond(g, st, g.kids(e)[0], val)
                    if st is None:
                        break
            if st is not None:
                res = st if res is None else self.join(res, st)
        self.busy.discard(g.id)
        if res is not None:
            m[k] = tuple((x, c) for x, c in self.closed(res).items() if self.speaks(g, x[0]) and self.speaks(g, x[1]))
        return m[k]

    def npos(self, f, n):
        iv = f.nodes[n].get('iv', f.nodes[f.strip_all(n)].get('iv'))
        return iv is not None and int(iv) in (NPOS, -1)

    def compare(self, f, st, op, a, b):
        for x, y in ((a, b), (b, a)):
            if op in ('!=', '==') and self.npos(f, y):
                m = f.strip_all(x)
                p = f.path(m)
                facts = [t for t in st[1] if t[0] == p]
                sr = self.search(f, st, m)
                if op == '!=':
                    for t in facts:
                        st = self.constrain(st, p, t[2], ('#',) + t[1], 0) or st
                        st = self.constrain(st, Z, 0, p, 0) or st
                    if sr is not None:
                        st = self.constrain(st, Z, sr[1], ('#',) + sr[0], 0) or st
                return st
        # index found: find(...) == 0 / != 0, >= 0
        for x, y, o in ((a, b, op), (b, a, SWAP[op])):
            sr = self.search(f, st, f.strip_all(x))
            iv = f.nodes[y].get('iv', f.nodes[f.strip_all(y)].get('iv'))
            if sr is not None and iv is not None and o in ('==', '<', '<=') and int(iv) < 2 ** 40:
                k = int(iv) if o == '==' else 0
                st = self.constrain(st, Z, sr[1] + k, ('#',) + sr[0], 0) or st
        for i, x in enumerate((a, b)):
            m = f.strip_all(x)
            if f.k(m) == 'ConditionalOperator' and self.lin(f, st, x) is None:
                c, u, v = f.kids(m)[:3]
                res = None
                for z, val in ((u, True), (v, False)):
                    s2 = self.cond(f, st, c, val)
                    s2 = self.compare(f, s2, op, z if i == 0 else a, z if i == 1 else b) if s2 is not None else None
                    if s2 is not None:
                        res = s2 if res is None else self.join(res, s2)
                return res
        x, y = self.lin(f, st, a), self.lin(f, st, b)
        if (x is None) != (y is None):
            o, d, k = (op, self.difference(f, st, a), y) if x is None else (SWAP.get(op, op), self.difference(f, st, b), x)
            if d is not None and k[0] == Z:
                # first - second o constant
                x, y, op = d[0], (d[1][0], d[1][1] + k[1]), o
                a = b = None
        if x is None or y is None:
            return st
        # a signed value compared as unsigned
        if a is not None and unsigned(f.t(a)) and x[0] != Z and self.signed_source(f, a) and not self.leq(st, Z, 0, x[0], x[1]):
            if op in ('<', '<=', '==') and (unsigned(f.t(b))):
                st2 = self.constrain(st, Z, 0, x[0], x[1])
                st = st2 if st2 is not None else st
            else:
                return st
        if op == '<':
            return self.constrain(st, x[0], x[1] + 1, y[0], y[1])
        if op == '<=':
            return self.constrain(st, x[0], x[1], y[0], y[1])
        if op == '>':
            return self.constrain(st, y[0], y[1] + 1, x[0], x[1])
        if op == '>=':
            return self.constrain(st, y[0], y[1], x[0], x[1])
        if op == '==':
            s = self.constrain(st, x[0], x[1], y[0], y[1])
            return self.constrain(s, y[0], y[1], x[0], x[1]) if s is not None else None
        if op == '!=':
            lo = self.leq(st, x[0], x[1], y[0], y[1])
            hi = self.leq(st, y[0], y[1], x[0], x[1])
            if lo and hi:
                return None
            if lo:
                return self.constrain(st, x[0], x[1] + 1, y[0], y[1])
            if hi:
                return self.constrain(st, y[0], y[1] + 1, x[0], x[1])
            if a is not None and y == (Z, 0) and unsigned(f.t(f.strip_all(a))):
                return self.constrain(st, Z, 1, x[0], x[1])
            if b is not None and x == (Z, 0) and unsigned(f.t(f.strip_all(b))):
                return self.constrain(st, Z, 1, y[0], y[1])
        return st

    def signed_source(self, f, n):
        m = f.strip(n)
        while f.k(m) == 'ImplicitCastExpr' and f.kids(m):
            m = f.strip(f.kids(m)[0])
        return not unsigned(f.t(m)) and INT_T.match(base(f.t(m)))

    # ---- solving
    def initial(self, f, st):
        """Unsigned parameters and variables are never negative."""
        d = dict(self.closed(st))
        for p in f.params:
            t = f.types[p['t']]
            if INT_T.match(base(t)) and unsigned(t):
                UNSIGNED.add(('v:' + p['id'],))
                if base(t) == 'bool':
                    BOOLS.add(('v:' + p['id'],))
        return (frozenset(d.items()), st[1])

    def solve(self, f, init=None):
        init = self.initial(f, init or self.TOP)
        k = (f.id, init)
        if k not in self.solved:
            self.solved[k] = ({}, {})
            self.solved[k] = self.fixpoint(f, init)
        return self.solved[k]

    def loops(self, f):
        """header block -> blocks of the natural loop."""
        m = getattr(self, '_loops', None)
        if m is None:
            m = self._loops = {}
        if f.id in m:
            return m[f.id]
        cfg = f.cfg
        color, back = {}, []
        stack = [(cfg.entry, iter([x for x, _ in cfg.edges(cfg.entry)]))]
        color[cfg.entry] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if color.get(x) is None:
                    color[x] = 1
                    stack.append((x, iter([y for y, _ in cfg.edges(x)])))
                    break
                if color[x] == 1:
                    back.append((b, x))
            else:
                color[b] = 2
                stack.pop()
        out = {}
        for b, h in back:
            body = out.setdefault(h, {h})
            todo = [b]
            while todo:
                x = todo.pop()
                if x not in body:
                    body.add(x)
                    todo += [y for y in cfg.blocks[x].preds]
        m[f.id] = (out, set(back))
        return m[f.id]

    def fixpoint(self, f, init):
        """The first iteration of every loop is kept apart from the later ones; states are merged again where the loop is left."""
        cfg = f.cfg
        heads, back = self.loops(f)
        if len(cfg.blocks) > 150 or len(heads) > 6:
            heads, back = {}, set()
        inn = {(cfg.entry, frozenset()): init}
        work = [(cfg.entry, frozenset())]
        count = {}
        outs = {}
        while work:
            key = work.pop(0)
            b, ctx = key
            count[key] = count.get(key, 0) + 1
            if count[key] > 60:
                break
            st = inn[key]
            for e in cfg.blocks[b].elems:
                st = self.step(f, st, e)
                if st is None:
                    break
            if st is None:
                outs.pop(key, None)
                continue
            outs[key] = st
            for s, lab in cfg.edges(b):
                es = self.edge(f, st, cfg.blocks[b], lab)
                if es is None:
                    continue
                c = frozenset(h for h in ctx if s in heads[h])
                if (b, s) in back and s in heads:
                    c = c | {s}
                elif s in heads:
                    c = c - {s}
                k = (s, c)
                if k not in inn:
                    inn[k] = es
                    work.append(k)
                else:
                    j = self.widen(inn[k], es) if count.get(k, 0) > 8 else self.join(inn[k], es)
                    if j != inn[k]:
                        inn[k] = j
                        if k not in work:
                            work.append(k)
        self.parts = getattr(self, 'parts', {})
        self.parts[(f.id, init)] = inn
        ri, ro = {}, {}
        for src, dst in ((inn, ri), (outs, ro)):
            for (b, c), st in src.items():
                dst[b] = st if b not in dst else self.join(dst[b], st)
        return ri, ro

    def states(self, f, n, init=None):
        """The states in which node n is evaluated (one for each combination of first and later iterations)."""
        init = self.initial(f, init or self.entry(f))
        self.solve(f, init)
        w = f.cfg.where(n)
        out = []
        for (b, c), st in self.parts.get((f.id, init), {}).items():
            if w is not None and b == w[0]:
                for e in f.cfg.blocks[b].elems[:w[1]]:
                    st = self.step(f, st, e)
                    if st is None:
                        break
                if st is not None:
                    out.append(st)
        return out

    # ---- what is known on entry
    def callers(self, g):
        m = getattr(self, '_callers', None)
        if m is None:
            m = self._callers = {}
            self._taken = set()
            for f in self.P.fns.values():
                for n in f.calls():
                    for h in self.P.targets(f, n):
                        m.setdefault(h.id, []).append((f, n))
        return m.get(g.id, [])

    def entry(self, g):
        """State on entry of a function that only the library calls (joined over its callers), with the invariants of the class."""
        m = getattr(self, '_entry', None)
        if m is None:
            m = self._entry = {}
        if g.id in m:
            return m[g.id]
        m[g.id] = self.TOP
        st = self.invariant(g)
        if g.d.get('access') == 'private' and g.cls and not g.parent_id and not g.d.get('virt') and g.kind not in ('dtor', 'lambda'):
            cs = self.callers(g)
            if cs and len(cs) < 12:
                res = None
                for f, n in cs:
                    if f.cfg is None:
                        res = None
                        break
                    r = None
                    for s in self.states(f, n):
                        t = self.enter(f, s, n, g)
                        r = t if r is None else self.join(r, t)
                    if r is not None:
                        res = r if res is None else self.join(res, r)
                if res is not None:
                    d = dict(self.closed(res))
                    for k, c in self.closed(st).items():
                        if not any(s != Z and self.under(q)(s) for s in k for q in self.aliased.get(g.id, ())):
                            add(d, k[0], k[1], c)
                    st = (frozenset(d.items()), frozenset())
        m[g.id] = st
        return st

    def enter(self, f, st, n, g):
        """The caller's state in terms of the callee's parameters and own object."""
        d = {}
        own = inline.own_object(f, n)
        syms = []
        aliased = []
        for i, a in enumerate(g.params):
            if i >= len(f.args(n)) or f.args(n)[i] < 0:
                continue
            t = g.types[a['t']]
            x = f.args(n)[i]
            p = ('v:' + a['id'],)
            if CONT_T.match(t):
                v = self.size_of(f, st, x)
                if v is not None:
                    syms.append((('#',) + p, v))
            elif INT_T.match(base(t)):
                v = self.lin(f, st, x)
                if v is not None:
                    syms.append((p, v))
            if t.endswith('&') and not t.startswith('const '):
                # the callee changes this value under another name
                q = f.path(x)
                if q is not None and '[]' not in q:
                    aliased.append(q)
        self.aliased.setdefault(g.id, set()).update(aliased)
        clo = self.closed(st)
        gone = lambda s: s != Z and any(self.under(q)(s) for q in aliased)
        if own:
            clo2, clo = clo, {k: c for k, c in clo.items() if not gone(k[0]) and not gone(k[1])}
            for k, c in clo.items():
                ok = [x == Z or (x[1:] if x[0] == '#' else x)[0] == 'this' for x in k]
                if all(ok):
                    add(d, k[0], k[1], c)
            mine = {x for k in clo for x in k if x != Z and (x[1:] if x[0] == '#' else x)[0] == 'this'}
            clo = clo2
        else:
            mine = set()
        syms.append((Z, (Z, 0)))
        for s in mine:
            syms.append((s, (s, 0)))
        for a, (x, ox) in syms:
            for b, (y, oy) in syms:
                if a == b or a == Z and b in mine or b == Z and a in mine or a in mine and b in mine:
                    continue
                # a = x + ox, b = y + oy; a - b <= (x - y) + ox - oy
                if x == y:
                    add(d, a, b, ox - oy)
                elif (x, y) in clo:
                    add(d, a, b, clo[(x, y)] + ox - oy)
        return (frozenset(d.items()), frozenset())

    def invariant(self, g):
        if not g.cls or g.parent_id or g.kind == 'ctor' or g.d.get('static'):
            return self.TOP
        return (frozenset(self.inv.get(g.cls, {}).items()), frozenset())

    def infer(self, cands):
        """Keeps of the candidate class invariants {class: {(x, y): c}} those that every constructor establishes and every operation keeps.
        Conditions on sizes alone are taken as given (capacities are positive)."""
        self.inv = {c: dict(v) for c, v in cands.items()}
        while True:
            for m in ('_entry', '_when', '_callers'):
                if hasattr(self, m):
                    delattr(self, m)
            drop = []
            mine = {g.id for g in self.P.fns.values() if g.cls in self.inv}
            for g in self.P.fns.values():
                if g.cls in self.inv and g.cfg is not None:
                    self.entry(g)
            self.after_memo.clear()
            for k in [k for k in self.solved if k[0] in mine]:
                del self.solved[k]
            for g in self.P.fns.values():
                if g.cls not in self.inv or g.cfg is None or g.parent_id or g.kind == 'dtor' or g.d.get('static'):
                    continue
                if g.kind == 'ctor':
                    d = {k: c for k, c in self.inv[g.cls].items() if k[0] == Z and k[1][0] == '#'}
                    for b in self.P.bases_closure(g.d.get('clsid')):       # established by the constructor of the base
                        d.update(self.inv.get((self.P.classes.get(b) or {}).get('qn'), {}))
                    init = (frozenset(d.items()), frozenset())
                    if g.d.get('defaulted') or 'Copy' in str(g.d.get('ck', '')):
                        continue
                elif g.d.get('access') == 'private' and not g.d.get('virt'):
                    continue
                else:
                    init = self.entry(g)
                o = self.exit_state(g, init)
                if o is None:
                    continue
                for k, c in self.inv[g.cls].items():
                    if k[0] == Z and k[1][0] == '#':
                        o = self.constrain(o, Z, -c, k[1], 0) or o
                for k, c in self.inv[g.cls].items():
                    if k[0] == Z and k[1][0] == '#':
                        continue
                    if not self.leq(o, k[0], 0, k[1], c):
                        drop.append((g.cls, k, g))
            if not drop:
                return
            for c, k, g in drop:
                self.inv[c].pop(k, None)
                self.broken.setdefault((c, k), g)

    def at(self, f, n, init=None):
        """State when node n is evaluated (None when it is not reached)."""
        inn, _ = self.solve(f, init)
        w = f.cfg.where(n)
        if w is None or w[0] not in inn:
            return None
        st = inn[w[0]]
        for e in f.cfg.blocks[w[0]].elems[:w[1]]:
            st = self.step(f, st, e)
            if st is None:
                return None
        return st
