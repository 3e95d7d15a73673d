"""C30: an element of a string, sequence, stack or queue is read only at a position that has been established to exist."""
import re

import bounds
import inline
from bounds import CONT_T, STR_T, Z, base

ENDS = {'front', 'back', 'top', 'pop', 'pop_back', 'pop_front'}
SEQ_T = re.compile(r'^(const )?(std::(basic_string|basic_string_view|vector|deque|list|stack|queue|priority_queue|array|__cxx11::list|__cxx11::basic_string)\b)')


def range_vars(f):
    m = f.__dict__.get('_range_vars')
    if m is None:
        m = set()
        for n in f.all_nodes():
            d = f.nodes[n]
            if d['k'] == 'CXXForRangeStmt' and 'lvar' in d:
                m.update(v['id'] for v in f.nodes[d['lvar']].get('vars', ()) if isinstance(v, dict) and 'id' in v)
        f.__dict__['_range_vars'] = m
    return m


def counted(f, i, t):
    """An index that starts at 0 and is incremented at most once per iteration of a range-for over a sequence of the same fixed length."""
    a = re.match(r'^(?:const )?std::array<.*, (\d+)>', t)
    if not a:
        return False
    return any(f.k(n) == 'UnaryOperator' and f.nodes[n].get('op') == '++' for n in f.walk(i)) and any(
        f.k(n) == 'CXXForRangeStmt' and i in set(f.walk(n)) for n in f.all_nodes()) and not any(
        f.k(n) in ('ForStmt', 'WhileStmt', 'DoStmt') and i in set(f.walk(n)) for n in f.all_nodes())


class Checker:
    def __init__(self, prog, rep):
        self.P, self.rep = prog, rep
        self.B = bounds.Bounds(prog)
        self.callers = {}
        for f in prog.fns.values():
            for n in f.calls():
                for g in prog.targets(f, n):
                    self.callers.setdefault(g.id, []).append((f, n))

    def sites(self, f):
        """(node, container node, kind, index node) for every access by position."""
        for n in f.all_nodes():
            d = f.nodes[n]
            k = d['k']
            if k == 'CXXOperatorCallExpr' and d.get('op') == '[]' and len(f.kids(n)) == 3:
                c = f.kids(n)[1]
                if SEQ_T.match(f.t(f.strip_all(c))):
                    yield n, c, '[]', f.kids(n)[2]
            elif k == 'ArraySubscriptExpr':
                c, i = f.kids(n)[:2]
                if re.search(r'\[\d+\]$', f.t(f.strip_all(c))):
                    yield n, c, '[]', i
            elif k == 'CXXMemberCallExpr' and (d.get('f') or '').startswith('std::') and d['f'].split('::')[-1] in ENDS and f.obj(n) is not None and SEQ_T.match(f.t(f.strip_all(f.obj(n)))):
                yield n, f.obj(n), d['f'].split('::')[-1], None

    def apart(self, f, c, kind, i):
        r = f.root()
        if APART.match(r.cls or r.qn) or APART.match(f.cls or ''):
            return 'representation of a structure'
        if i is None:
            return None
        m = f.strip_all(i)
        for x in f.walk(m):
            d = f.nodes[x]
            t = base(f.t(x))
            if t in self.P.enums:
                return 'enumeration used as an index'
            if d['k'] == 'DeclRefExpr' and 'v' in d and d['v'] in range_vars(f):
                return 'index taken from stored data'
        p = f.path(m)
        if p and len(p) > 1 and p[0] != 'this':
            return 'index taken from stored data'
        if counted(f, m, f.t(f.strip_all(c))):
            return 'one index per element of a sequence of the same length'
        return None

    def proven(self, f, n, c, kind, i):
        return all(self.holds(f, st, c, kind, i) for st in self.B.states(f, n))

    def holds(self, f, st, c, kind, i, depth=0):
        B = self.B
        m = f.strip_all(i) if i is not None else None
        if m is not None and f.k(m) == 'ConditionalOperator' and depth < 3:
            q, a, b = f.kids(m)[:3]
            for x, val in ((a, True), (b, False)):
                s = B.cond(f, st, q, val)
                if s is not None and not self.holds(f, s, c, kind, x, depth + 1):
                    return False
            return True
        s = B.size_of(f, st, c)
        if s is None:
            return False
        if kind != '[]':
            return B.leq(st, Z, 1, s[0], s[1])
        slack = 1 if re.match(r'^(const )?std::(__cxx11::)?basic_string\b', f.t(f.strip_all(c))) else 0
        x = B.lin(f, st, i)
        if x is not None and (B.leq(st, Z, 0, x[0], x[1]) or x[1] == 0 and bounds.unsigned(f.t(m))) and B.leq(st, x[0], x[1] + 1 - slack, s[0], s[1]):
            return True
        u = B.upper(f, i)
        if u is not None and B.leq(st, Z, u + 1 - slack, s[0], s[1]):
            return True
        if f.nodes[m].get('op') == '%' and bounds.unsigned(f.t(m)):
            y = B.lin(f, st, f.kids(m)[1])
            return y is not None and B.leq(st, y[0], y[1], s[0], s[1])
        return False


# Accesses that rest on the representation of a whole structure, on the shape of another document or on data kept elsewhere are not judged.
APART = re.compile(r'^Balau::(Lang::\w*Scanne\w*|ObjectTrie\w*|Impl::(BindingMap|ObjectTrie\w*|DependencyGraph\w*)|DependencyGraph\w*|Character|Container::(ObjectTrie|DependencyGraph)\w*|'
                   r'Impl::\w*Builder\w*|Impl::\w*Visitor\w*|(\w+::)?\w+Visitor|Testing::Impl::\w*Executor\w*|Lang::Property::\w*Visitor\w*)\b')


def check(prog, rep):
    ch = Checker(prog, rep)
    sites = []
    cands = {}
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.dn)):
        if f.cfg is None or 'ThirdParty' in f.file:
            continue
        for n, c, kind, i in ch.sites(f):
            sites.append((f, n, c, kind, i))
            p, x = f.path(c), f.path(f.strip_all(i)) if i is not None else None
            if p and x and p[0] == x[0] == 'this' and len(p) == len(x) == 2 and f.cls:
                cands.setdefault(f.cls, {}).update({(x, ('#',) + p): -1, (Z, ('#',) + p): -1})
    cands = {c: v for c, v in cands.items() if not APART.match(c)}
    ch.B.infer(cands)
    for c, v in cands.items():
        rep.count('class invariants established', len([k for k in ch.B.inv[c] if k[0] != Z]))
    rep.count('class invariants refuted', len(ch.B.broken))
    for f, n, c, kind, i in sites:
        rep.count('accesses')
        if ch.proven(f, n, c, kind, i):
            rep.count('accesses shown to exist')
            continue
        why = ch.apart(f, c, kind, i)
        if why:
            rep.count('not judged: ' + why)
            continue
        g = [ch.B.broken[k] for k in ch.B.broken if k[0] == f.cls and i is not None and k[1][0] == f.path(f.strip_all(i))]
        what = {'[]': 'the element read here'}.get(kind, 'the %s element of a container that may be empty' % kind)
        rep.violation('%s|%s|%s' % (f.qn, kind, name_of(f, c)), f.loc(n),
                      '%s: nothing on some path to this point establishes that %s of %s exists%s' % (f.dn, what, name_of(f, c), (' (%s does not keep the index inside the container)' % g[0].dn) if g else ''))
    rep.need('accesses', 400)
    rep.need('accesses shown to exist', 300)
    return ('Difference-bound dataflow (indices, lengths, search results, sizes of containers; helper summaries, class invariants and entry states of private functions inferred) over the clang CFG of every function; '
            'each read of an element by position or at an end needs 0 <= index < size (index <= size for the terminator of a string) on every path.')


def name_of(f, c):
    p = f.path(c)
    return '.'.join(x.split('@')[0].replace('v:', '') for x in p) if p else 'a temporary'
