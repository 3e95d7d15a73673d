"""C26: token dispatch agrees with what the productions accept; visitors visit the children of composite nodes."""
import re

import flags

LEVEL = 'other'
TOKEN = re.compile(r'^(const )?(enum )?[\w:]*Token( &)?$')


class Parser:
    def __init__(self, prog):
        self.P = prog

    def scanner(self, f, n):
        """'get', 'expect' or 'consume' for an operation of the scanner that the parser reads from."""
        d = f.nodes[n]
        if d['k'] != 'CXXMemberCallExpr' or not re.search(r'::ScannerApi\w*$', d.get('oc') or d.get('cls') or ''):
            return None
        name = (d.get('f') or '').split('::')[-1]
        if name.startswith('expect'):
            return 'expect'
        if name.startswith('consume'):
            return 'consume'
        return 'get' if name == 'get' else None

    def enum(self, f, n):
        return bool(TOKEN.match(f.t(f.strip_all(n)).strip()))

    def const(self, f, n):
        return f.nodes[f.strip_all(n)].get('iv') if self.enum(f, n) else None

    def held(self, f, n):
        """The variable whose token an expression names: token.token or scanner.get().token ('')."""
        m = f.strip_all(n)
        while f.k(m) == 'MemberExpr' and f.kids(m):
            m = f.strip_all(f.kids(m)[0])
        if f.k(m) == 'DeclRefExpr':
            return f.nodes[m].get('v')
        if f.is_call(m) and self.scanner(f, m) == 'get':
            return ''
        return None

    def compared(self, f, n):
        """(expression, constant, truth of 'equal') of a comparison of a token with a constant."""
        d = f.nodes[n]
        if d['k'] == 'BinaryOperator' and d.get('op') in ('==', '!='):
            for a, b in (f.kids(n), f.kids(n)[::-1]):
                c = self.const(f, b)
                if c is not None and self.const(f, a) is None and self.enum(f, a):
                    return a, c, d['op'] == '=='
        return None

    def advances(self, f, n, depth=0):
        """Does this call move the parser to another token on some path?"""
        s = self.scanner(f, n)
        if s:
            return s != 'get'
        if depth > 8:
            return False
        return any(self.moves(g, depth + 1) for g in self.P.targets(f, n) if self.own(g))

    def own(self, g):
        return g.cfg is not None and '/Lang/' in g.file and 'Scanner' not in g.file

    def moves(self, g, depth):
        memo = self.__dict__.setdefault('_mv', {})
        if g.id not in memo:
            memo[g.id] = False
            memo[g.id] = any(self.advances(g, n, depth) for n in g.calls())
        return memo[g.id]

    def first(self, f, block, t, depth=0, index=0):
        """What happens first to the current token t from this place on: ('expect', f, n, c), ('consume',), ('throw', f, line), ('return',)."""
        out, seen, todo = set(), set(), [(block, index)]
        fine = self.assigned(f)
        while todo:
            b, i = todo.pop()
            if (b, i) in seen:
                continue
            seen.add((b, i))
            blk = f.cfg.blocks[b]
            stop = False
            for e in blk.elems[i:]:
                if not isinstance(e, int):
                    continue
                if f.k(e) == 'CXXThrowExpr':
                    out.add(('throw', f, f.line_of(e)))
                    stop = True
                    break
                if not f.is_call(e):
                    continue
                s = self.scanner(f, e)
                if s == 'expect':
                    out.add(('expect', f, e, self.const(f, f.args(e)[0]) if f.args(e) else None))
                    stop = True
                elif s == 'consume':
                    out.add(('consume',))
                    stop = True
                elif s is None and depth < 8:
                    r = set()
                    for g in self.P.targets(f, e):
                        if self.own(g) and self.moves(g, 0):
                            r |= self.first(g, g.cfg.entry, t, depth + 1)
                    if r:
                        out |= r - {('return',)}
                        stop = ('return',) not in r
                if stop:
                    break
            if stop or blk.noret:
                continue
            for s, lab in f.cfg.edges(b, None):
                if s == f.cfg.exit:
                    out.add(('return',))
                    continue
                if lab in (True, False) and blk.cond is not None:
                    ok = True
                    n = f.strip_all(flags.last(f, blk.cond))
                    for m, v in flags.decompose(f, n, lab):
                        c = self.compared(f, f.strip_all(m))
                        if c and self.current(f, c[0], fine) and ((c[1] == t) == c[2]) != v:
                            ok = False
                    if not ok:
                        continue
                if isinstance(lab, tuple):
                    cs = self.cases(f, b)
                    if cs is not None and self.current(f, f.nodes[blk.term]['cond'], fine):
                        if s != cs.get(t, cs.get(None)):
                            continue
                todo.append((s, 0))
        return out

    def assigned(self, f):
        """variable -> nodes that make it hold the current token."""
        r = f.__dict__.get('_c26as')
        if r is None:
            r = f.__dict__['_c26as'] = {}
            for v, d in f.vars.items():
                i = d.get('init') if isinstance(d, dict) else None
                if i is not None and i >= 0 and self.reads(f, i):
                    r.setdefault(v, []).append(i)
            for n, d in enumerate(f.nodes):
                if d.get('op') == '=' and d['k'] in ('BinaryOperator', 'CXXOperatorCallExpr'):
                    a, b = f.kids(n)[-2:]
                    m = f.strip_all(a)
                    if f.k(m) == 'DeclRefExpr' and f.nodes[m].get('v') is not None and self.reads(f, b):
                        r.setdefault(f.nodes[m]['v'], []).append(n)
        return r

    def reads(self, f, n):
        return any(f.is_call(m) and self.scanner(f, m) == 'get' for m in f.walk(n))

    def current(self, f, n, fine):
        """Is this the token the parser stands at, as long as nothing has been consumed since entry?"""
        v = self.held(f, n)
        return v == '' or v is not None and v in fine

    def cases(self, f, b):
        """token -> block of a switch over the tokens (None: default)."""
        blk = f.cfg.blocks[b]
        if blk.term is None or f.k(blk.term) != 'SwitchStmt' or not self.enum(f, f.nodes[blk.term]['cond']):
            return None
        r = {}
        for s, lab in f.cfg.edges(b, None):
            n = lab[1] if isinstance(lab, tuple) else None
            if n is not None and f.k(n) == 'CaseStmt':
                iv = f.nodes[f.nodes[n]['lhs']].get('iv', f.nodes[f.strip_all(f.nodes[n]['lhs'])].get('iv'))
                r[int(iv)] = s
            else:
                r[None] = s
        return r

    # ---- the dispatch
    def judge(self, f, rep):
        names = {}
        for n, d in enumerate(f.nodes):
            if 'ec' in d and 'iv' in d and self.enum(f, n):
                names[d['iv']] = d['ec']
        starts = []
        for b in sorted(f.cfg.reachable()):
            cs = self.cases(f, b)
            if cs:
                starts += [(t, s, f.line_of(f.cfg.blocks[b].term)) for t, s in cs.items() if t is not None]
            blk = f.cfg.blocks[b]
            if blk.cond is not None:
                c = self.compared(f, f.strip_all(flags.last(f, blk.cond)))
                if c and self.current(f, c[0], self.assigned(f)):
                    starts += [(c[1], s, f.line_of(blk.cond)) for s, lab in f.cfg.edges(b, None) if lab == c[2] and s != f.cfg.exit]
        for t, s, line in starts:
            r = self.first(f, s, t)
            name = names.get(t, str(t))
            rep.count('dispatched tokens followed')
            rep.sample('dispatch', '%s:%d %s' % (f.loc().split(':')[0], line, name))
            if any(e[0] == 'consume' or e[0] == 'expect' and e[3] in (t, None) for e in r):
                continue        # accepted on some path
            for e in sorted(r, key=str):
                if e[0] == 'expect' and e[3] is not None and e[3] != t:
                    rep.violation('|'.join(map(str, (f.qn, name, e[1].qn))), f.loc(), 'the token %s is dispatched at line %d to %s, which insists on another token at line %d' % (name, line, e[1].qn.split('::')[-1], e[1].line_of(e[2])))
                if e[0] == 'throw' and e[1] is not f:
                    rep.violation('|'.join(map(str, (f.qn, name, e[1].qn))), f.loc(), 'the token %s is dispatched at line %d to %s, which refuses it at line %d' % (name, line, e[1].qn.split('::')[-1], e[2]))

    # ---- tokens read before the parser moved on
    def stale(self, f, rep):
        a = self.assigned(f)
        vs = {v for v in a if len(a[v]) > 1}
        if not vs:
            return
        sets = {}
        for v in vs:
            for n in a[v]:
                sets[n] = v
        def step(st, e):
            old, env = st
            if not isinstance(e, int):
                return st
            d = f.nodes[e]
            if d['k'] == 'DeclStmt':
                for v in d['vars']:
                    i = v.get('init')
                    if v['id'] in vs and i is not None and self.reads(f, i):
                        old = old - {v['id']}
                    elif f.types[v['t']] == 'bool' and i is not None:
                        env = self.bind(f, env, v['id'], i)
                return old, env
            if e in sets:
                return old - {sets[e]}, env
            if d['k'] == 'BinaryOperator' and d.get('op') == '=':
                a, b = f.kids(e)
                a = f.strip_all(a)
                if f.k(a) == 'DeclRefExpr' and f.t(a) == 'bool' and 'v' in f.nodes[a]:
                    env = self.bind(f, env, f.nodes[a]['v'], b)
            if f.is_call(e) and self.advances(f, e):
                given = {f.nodes[f.strip_all(x)].get('v') for x in f.args(e) if x >= 0}
                for g in self.P.targets(f, e):
                    given |= set(self.assigned(g))
                return vs - given, env
            return old, env
        vs = frozenset(vs)
        seen, todo, bad = set(), [(f.cfg.entry, (frozenset(), frozenset()))], {}
        while todo and len(seen) < 20000:
            b, st = todo.pop()
            if (b, st) in seen:
                continue
            seen.add((b, st))
            blk = f.cfg.blocks[b]
            for e in blk.elems:
                st = step(st, e)
            switch = blk.term is not None and f.k(blk.term) == 'SwitchStmt'
            n = f.nodes[blk.term]['cond'] if switch else flags.last(f, blk.cond) if blk.cond is not None else None
            if n is not None:
                for m in f.walk(n):
                    if f.nodes[m].get('v') in st[0]:
                        bad[m] = True
            for s, lab in f.cfg.edges(b):
                env = dict(st[1])
                if lab in (True, False) and blk.cond is not None:
                    if any(f.k(f.strip_all(m)) == 'DeclRefExpr' and env.get(f.nodes[f.strip_all(m)].get('v'), v) != v for m, v in flags.decompose(f, n, lab)):
                        continue
                if s != f.cfg.exit and not blk.noret:
                    todo.append((s, st))
        rep.count('token variables followed', len(vs))
        for m in sorted(bad):
            rep.violation('|'.join(map(str, (f.qn, 'stale', f.nodes[m].get('n'), f.line_of(m) - f.line))), f.loc(m), 'the token tested at line %d was read before the parser moved to another one' % f.line_of(m))

    def bind(self, f, env, v, n):
        env = frozenset(x for x in env if x[0] != v)
        iv = f.nodes[f.strip_all(n)].get('iv')
        return env if iv is None else env | {(v, bool(int(iv)))}


def node_class(P, t):
    m = re.match(r'const ([\w:]+) &$', t)
    return m.group(1) if m else None


def check(prog, rep):
    P = Parser(prog)
    fns = sorted((f for f in prog.fns.values() if f.cfg is not None and 'ThirdParty' not in f.file), key=lambda f: (f.file, f.line))
    for f in fns:
        if P.own(f) and any(P.scanner(f, n) for n in f.calls()):
            rep.count('productions')
            P.judge(f, rep)
            P.stale(f, rep)
    visitors(prog, fns, rep)
    rep.need('productions', 3)
    rep.need('dispatched tokens followed', 10)
    rep.need('composite visits', 3)
    return ('Every token that a switch or a comparison selects is followed along the control flow graph, through the productions called, to the first operation on the scanner: '
            'an expect() of another token or a refusal inside the production is a violation; a token variable is not tested after the scanner has moved on without a new read; '
            'every visit() of a node class with children calls visit() for each child, unconditionally, in a loop without early exit.')


def composite(prog, t):
    """Does this class of node have children?"""
    c = node_class(prog, t)
    return c and any(f.cls == c and f.qn.split('::')[-1] == 'getNodes' for f in prog.fns.values())


def visitors(prog, fns, rep):
    for f in fns:
        if f.qn.split('::')[-1] != 'visit' or not f.d.get('over') or len(f.d.get('params', ())) != 2:
            continue
        t = f.types[f.d['params'][1]['t']]
        if not composite(prog, t):
            continue
        rep.count('composite visits')
        rep.sample('composite visits', f.loc())
        if not whole(prog, f):
            rep.violation('|'.join(map(str, (f.qn, t))), f.loc(), 'this visit of a node with children does not visit each child')


def named(f, n, name):
    return f.is_call(n) and (f.nodes[n].get('f') or '').split('::')[-1] == name


def whole(prog, f, depth=0):
    """Is there a loop that visits every element, here or in a helper that is given the children?"""
    for n in f.calls():
        if named(f, n, 'visit') and covers(f, n):
            return True
        if depth < 3 and any(named(f, m, 'getNodes') or f.k(m) == 'DeclRefExpr' and 'vector' in f.t(m) for a in f.args(n) if a >= 0 for m in f.walk(a)):
            if any(g.cfg is not None and g.cls == f.cls and whole(prog, g, depth + 1) for g in prog.targets(f, n)):
                return True
    for g in f.descendant_lambdas():
        if any(named(g, n, 'visit') and covers(g, n, True) for n in g.calls()):
            return True
    return False


def null_test(f, i):
    c = f.nodes[i].get('cond', f.kids(i)[0])
    return all(f.k(m) != 'MemberExpr' or not named(f, f.parents.get(m, m), 'getNodes') for m in f.walk(c)) and not any(
        f.is_call(m) and not re.search(r'operator|::get$', f.nodes[m].get('f') or '') for m in f.walk(c)) and (
        any(f.k(m) in ('CXXNullPtrLiteralExpr',) or re.search(r'operator bool$', f.nodes[m].get('f') or '') for m in f.walk(c)))


def covers(f, n, body=False):
    """Is the call made for every element of a loop?"""
    m, loop = f.parents.get(n), None
    while m is not None:
        k = f.k(m)
        if k == 'IfStmt' and not null_test(f, m) or k in ('SwitchStmt', 'ConditionalOperator', 'CXXTryStmt'):
            return False
        if k in ('CXXForRangeStmt', 'ForStmt', 'WhileStmt', 'DoStmt'):
            loop = m
            break
        m = f.parents.get(m)
    if loop is None:
        return body and not [x for x in range(len(f.nodes)) if f.k(x) == 'ReturnStmt']
    return not any(f.k(x) in ('BreakStmt', 'ContinueStmt', 'ReturnStmt', 'GotoStmt') for x in f.walk(loop))
