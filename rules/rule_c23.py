"""C23: every way round a loop changes something that decides whether the loop goes on."""
import re

import flags
import locks

SHARED_T = re.compile(r'(std|boost)::(__cxx11::)?(mutex|condition_variable|atomic|thread|future|promise|interprocess)|\bvolatile\b')
# Standard functions whose result differs from call to call although their arguments are constant.
CHANGING = re.compile(r'::now$|::(try_)?(lock|wait|wait_for|wait_until|acquire|sleep_for|sleep_until|yield|join|arrive_and_wait)$|random|^(::)?[a-z_0-9]+$')
PURE_C = re.compile(r'^(::)?(str(len|n?cmp|chr|rchr|str)|mem(cmp|chr)|is[a-z]+|to(upper|lower)|abs|floor|ceil|u_\w+|uprv_\w+|u8_\w+|utf8_\w*|getenv|__builtin_\w+|min|max)$')
ATOMIC = re.compile(r'(std|boost)::(__)?atomic')
SEARCH = re.compile(r'::(find|rfind|find_first_of|find_last_of|find_first_not_of|find_last_not_of|lower_bound|upper_bound|next_permutation)$')


class Loops:
    def __init__(self, prog):
        self.P = prog
        self.pure_memo = {}

    # ---- purity
    def changing(self, f, n, depth=0):
        """Can this call give another result the next time although nothing it is given has changed, or act on the outside world?"""
        d = f.nodes[n]
        name = d.get('f') or ''
        k = d['k']
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXInheritedCtorInitExpr'):
            return bool(locks.is_lock_type(f.t(n)))
        if flags.atomic_op(f, n):
            return True
        ts = self.P.targets(f, n)
        if ts:
            return any(self.impure(g, depth) for g in ts)
        if not name:
            return True         # a function object or a function pointer
        if name.startswith(('std::', 'boost::', '__gnu')):
            if re.search(r'function<.*>::operator\(\)|std::function::operator\(\)', name):
                return True
            return name.startswith('boost::asio::') or bool(re.search(r'::now$|::(try_)?(lock|wait|wait_for|wait_until|timed_wait|acquire|sleep_for|sleep_until|yield|join)$|random|this_thread|filesystem::(exists|is_|status|file_size)|getline|interprocess', name))
        if PURE_C.match(name):
            return False
        return True

    def impure(self, g, depth):
        if g.id in self.pure_memo:
            return self.pure_memo[g.id]
        if g.cfg is None or depth > 6:
            return not (g.d.get('const') or g.d.get('cm'))
        self.pure_memo[g.id] = False
        r = False
        for n in g.calls():
            if self.changing(g, n, depth + 1):
                r = True
                break
        if not r:
            for n, d in enumerate(g.nodes):
                if d['k'] in ('DeclRefExpr', 'MemberExpr') and 'gv' in d and locks.usage(g, n) == 'w':
                    r = True
                    break
        self.pure_memo[g.id] = r
        return r

    # ---- what an expression reads
    def root(self, f, n):
        """Storage an lvalue expression (DeclRefExpr or MemberExpr) is part of."""
        p = f.path(n)
        if p is None:
            return None
        if p[0] == 'this':
            return 'this.' + p[1] if len(p) > 1 else 'this'
        return p[0]

    def refs(self, f, n):
        for x in f.walk(n):
            d = f.nodes[x]
            if d['k'] == 'DeclRefExpr' and ('v' in d or 'gv' in d):
                if d.get('enum') or 'ec' in d:
                    continue
                r = self.root(f, x)
                if r:
                    yield x, r
            elif d['k'] == 'MemberExpr' and (d.get('fld') or d.get('sdm')):
                r = self.root(f, x)
                if r:
                    yield x, r
            elif d['k'] == 'CXXThisExpr':
                p = f.parents.get(x)
                while p is not None and f.k(p) in ('ImplicitCastExpr', 'ParenExpr'):
                    p = f.parents.get(p)
                if p is None or not f.nodes[p].get('fld'):
                    yield x, 'this'

    def reads(self, f, n):
        """(roots read, strongly read roots, changes by itself)."""
        allr, strong, imp = set(), set(), False
        for x, r in self.refs(f, n):
            allr.add(r)
            t = f.t(f.strip(x))
            if ATOMIC.search(t) or 'volatile' in t.split():
                imp = True
            if not self.weak(f, n, x):
                strong.add(r)
        for x in f.walk(n):
            if f.is_call(x) and self.changing(f, x):
                imp = True
            if f.k(x) == 'LambdaExpr':
                imp = True
            if f.k(x) in ('CXXNewExpr', 'CoawaitExpr'):
                imp = True
        return allr, strong, imp

    def weak(self, f, top, x):
        """x reaches the value of top unchanged: a copy, or the place at which a search that may return it starts."""
        top = f.strip_all(top)
        cur = x
        while cur is not None:
            if f.strip_all(cur) == f.strip_all(x) and (cur == top or f.strip_all(top) == f.strip_all(x)):
                return True
            p = f.parents.get(cur)
            if p is None:
                return False
            if f.is_call(p) and f.strip_all(p) != f.strip_all(x):
                return f.strip_all(p) == top and SEARCH.search(f.nodes[p].get('f') or '') is not None and any(f.strip_all(a) == f.strip_all(x) for a in f.args(p))
            if f.strip_all(p) != f.strip_all(x):
                return False
            cur = p
        return False

    def nonzero(self, f, n, st, depth=0):
        n = f.strip_all(n)
        d = f.nodes[n]
        if 'iv' in d:
            return int(d['iv']) != 0
        c = self.canon(f, n)
        if c and any(x[:4] == ('eq', c[0], 0, False) or x[0] == 'eq' and x[1] == c[0] and x[3] and x[2] != 0 for x in st):
            return True
        if d['k'] == 'BinaryOperator' and d.get('op') == '+' and 'unsigned' in f.t(n) and depth < 6:
            return any(self.nonzero(f, k, st, depth + 1) for k in f.kids(n))
        if d['k'] == 'ConditionalOperator' and depth < 6:
            return all(self.nonzero(f, k, st, depth + 1) for k in f.kids(n)[1:])
        return False

    def idle(self, f, b, rhs, changed):
        """A step by an amount that stays the same and may be zero."""
        r, s, imp = self.reads(f, rhs)
        if imp or '*' in changed or r & changed or any(x.startswith('this') for x in r) or not r:
            return False
        if any(f.k(x) in ('CXXMemberCallExpr', 'CallExpr') for x in f.walk(rhs)) and any(q.startswith('this') for q in changed):
            return False
        return not self.nonzero(f, rhs, self.facts_at(f).get(b, frozenset()))

    # ---- loops
    def sccs(self, f, blocks, dead=()):
        cfg = f.cfg
        index, low, onst, st, out = {}, {}, set(), [], []
        succ = {b: [s for s, _ in cfg.edges(b) if s in blocks and (b, s) not in dead] for b in blocks}
        for start in sorted(blocks):
            if start in index:
                continue
            work = [(start, iter(succ[start]))]
            index[start] = low[start] = len(index)
            st.append(start)
            onst.add(start)
            while work:
                b, it = work[-1]
                for s in it:
                    if s not in index:
                        index[s] = low[s] = len(index)
                        st.append(s)
                        onst.add(s)
                        work.append((s, iter(succ[s])))
                        break
                    if s in onst:
                        low[b] = min(low[b], index[s])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[b])
                    if low[b] == index[b]:
                        c = set()
                        while True:
                            x = st.pop()
                            onst.discard(x)
                            c.add(x)
                            if x == b:
                                break
                        if len(c) > 1 or b in succ[b]:
                            out.append(c)
        return out

    def effects(self, f):
        """(block, root or '*', kind, value reads): every change of storage that this function makes."""
        e = f.__dict__.get('_c23')
        if e is not None:
            return e
        out = []
        cfg = f.cfg
        seen = set()

        def at(n):
            w = cfg.where(n)
            return w[0] if w else None

        for n, d in enumerate(f.nodes):
            k = d['k']
            if k == 'DeclStmt':
                for v in d.get('vars', ()):
                    if 'init' in v and at(n) is not None:
                        r = ('v:' + v['id'])
                        if v.get('ref'):
                            continue
                        out.append((at(n), r, 'set', v['init'], n))
            elif k in ('BinaryOperator', 'CompoundAssignOperator') and d.get('asg'):
                l, rhs = f.kids(n)[:2]
                r = self.root(f, l)
                if r is None:
                    for _, q in self.refs(f, l):
                        out.append((at(n), q, 'mod', None, n))
                        break
                elif d.get('op') == '=' and len(f.path(l) or ()) <= 2 and '[]' not in (f.path(l) or ()):
                    out.append((at(n), r, 'assign', rhs, n))
                elif d.get('op') in ('+=', '-=') and re.match(r'^(unsigned |signed |const )*(char|short|int|long|long long)$', f.t(l)) and len(f.path(l) or ()) <= 2:
                    out.append((at(n), r, 'step', None, n))
                else:
                    out.append((at(n), r, 'mod', None, n))
                seen.add(f.strip_all(l))
            elif k == 'CXXOperatorCallExpr' and d.get('op') == '=' and d.get('cls') and len(f.kids(n)) == 3:
                l, rhs = f.kids(n)[1:3]
                r = self.root(f, l)
                if r is not None:
                    out.append((at(n), r, 'assign' if len(f.path(l)) <= 2 else 'mod', rhs, n))
                seen.add(f.strip_all(l))
        for n, d in enumerate(f.nodes):
            if d['k'] in ('DeclRefExpr', 'MemberExpr') and ('v' in d or 'gv' in d or d.get('fld') or d.get('sdm')):
                if n in seen:
                    continue
                r = self.root(f, n)
                if r is None:
                    continue
                u = locks.usage(f, n)
                b = at(n)
                if b is None:
                    continue
                if u in ('w', 'ref') or (u == 'alias' and not self.constref(f, n)):
                    out.append((b, r, 'mod', None, n))
                elif self.pointer_passed(f, n):
                    out.append((b, r, 'mod', None, n))
        for n in f.calls():
            b = at(n)
            if b is None:
                continue
            d = f.nodes[n]
            if d['k'] == 'CXXMemberCallExpr':
                o = f.obj(n)
                own = o is None or f.k(f.strip(o)) == 'CXXThisExpr'
                if own and not d.get('cm'):
                    out.append((b, 'this', 'mod', None, n))
            name = d.get('f') or ''
            if d['k'] == 'CXXOperatorCallExpr' and d.get('op') == '()':
                out.append((b, '*', 'mod', None, n))
            elif not name or locks.is_lock_type(f.t(n)) or (name.startswith(('std::', 'boost::')) and re.search(r'::(lock|unlock|wait\w*|timed_wait|sleep_\w+|yield|join|acquire)$', name)):
                out.append((b, '*', 'mod', None, n))
            elif any(f.k(f.strip_all(a)) == 'LambdaExpr' for a in f.args(n)):
                out.append((b, '*', 'mod', None, n))
        f.__dict__['_c23'] = out
        return out

    # ---- what is known on a path
    def canon(self, f, n, depth=0):
        """A text that identifies the value of a pure expression, or None; with what it reads."""
        if n is None or depth > 8:
            return None
        n = f.strip_all(n)
        d = f.nodes[n]
        if 'iv' in d:
            return '#%s' % d['iv'], frozenset()
        p = f.path(n)
        if p is not None and '[]' not in p:
            return '.'.join(p), frozenset([self.root(f, n)] if self.root(f, n) else [])
        if d['k'] in ('CXXConstructExpr', 'CXXNewExpr', 'LambdaExpr', 'CompoundAssignOperator') or d.get('asg') or d.get('op') in ('++', '--', ','):
            return None
        if f.is_call(n) and (self.changing(f, n) or not (d.get('cm') or d.get('op') in ('[]', '==', '!=', '<', '>', '<=', '>='))):
            return None
        parts, roots = [], frozenset()
        for i, c in enumerate(f.kids(n)):
            if i == 0 and d['k'] in ('CXXOperatorCallExpr', 'CallExpr'):
                continue
            if f.k(c) == 'MemberExpr' and 'fn' in f.nodes[c]:
                c = f.kids(c)[0] if f.kids(c) else None
                if c is None:
                    parts.append('this')
                    roots |= {'this'}
                    continue
            r = self.canon(f, c, depth + 1)
            if r is None:
                return None
            parts.append(r[0])
            roots |= r[1]
        if not parts:
            return None
        return '%s%s(%s)' % (d.get('op') or d['k'], (d.get('f') or d.get('n') or '') if not d.get('op') else '', ','.join(parts)), roots

    def literal(self, f, cond, truth):
        """(kind, text, value, truth, roots): 'eq' of an expression and a constant, or the truth of an expression."""
        n = f.strip_all(cond)
        d = f.nodes[n]
        if d['k'] == 'UnaryOperator' and d.get('op') == '!':
            return self.literal(f, f.kids(n)[0], not truth)
        if d['k'] == 'BinaryOperator' and d.get('op') in ('==', '!='):
            for a, b in (f.kids(n), f.kids(n)[::-1]):
                iv = f.nodes[f.strip_all(b)].get('iv')
                if iv is not None:
                    c = self.canon(f, a)
                    return ('eq', c[0], int(iv), truth == (d['op'] == '=='), c[1]) if c else None
        c = self.canon(f, n)
        if c is None:
            return None
        if d['k'] != 'BinaryOperator' and not f.is_call(n):
            return ('eq', c[0], 0, not truth, c[1])
        return ('is', c[0], 0, truth, c[1])

    def with_edge(self, f, st, blk, lab):
        """Facts after an edge, or None if it contradicts what is known."""
        if lab in (True, False) and blk.cond is not None:
            n = f.strip_all(flags.last(f, blk.cond))
            if f.k(n) == 'UnaryOperator' and f.nodes[n].get('op') == '!':
                for m, v in flags.decompose(f, n, lab):
                    st = self.with_atom(f, st, m, v)
                    if st is None:
                        return None
                return st
            return self.with_atom(f, st, n, lab)
        return self.with_case(f, st, blk, lab)

    def with_atom(self, f, st, n, lab):
        n = f.strip_all(n)
        l = self.literal(f, n, lab)
        known = {x[:3]: x[3] for x in st}
        d = f.nodes[n]
        if 'iv' in d and d['k'] != 'DeclRefExpr':
            return st if bool(int(d['iv'])) == lab else None
        if d['k'] == 'BinaryOperator' and d.get('op') in ('<', '>', '!=', '=='):
            a, b = [self.canon(f, x) for x in f.kids(n)]
            if a and b:
                if d['op'] == '>':
                    a, b = b, a
                zero = [c[0] == '#0' or known.get(('eq', c[0], 0)) is True for c in (a, b)]
                non = [known.get(('eq', c[0], 0)) is False for c in (a, b)]
                uns = 'unsigned' in f.t(f.strip(f.kids(n)[0]))
                truth = None
                if d['op'] in ('<', '>') and zero[0] and non[1] and uns:
                    truth = True
                if d['op'] in ('!=', '==') and (zero[0] and non[1] or zero[1] and non[0]):
                    truth = d['op'] == '!='
                if truth is not None and truth != lab:
                    return None
                if d['op'] in ('<', '>') and uns:
                    x, y = f.kids(n) if d['op'] == '<' else f.kids(n)[::-1]
                    if lab is True:
                        st = st | {('eq', b[0], 0, False, b[1])}
                    elif self.nonzero(f, y, st):
                        st = st | {('eq', a[0], 0, False, a[1])}
        if l is None:
            return st
        if known.get(l[:3], l[3]) != l[3]:
            return None
        if l[0] == 'eq' and l[3] and any(x[0] == 'eq' and x[1] == l[1] and x[3] and x[2] != l[2] for x in st):
            return None
        return st | {l}

    def with_case(self, f, st, blk, lab):
        if isinstance(lab, tuple) and lab[0] == 'case' and lab[1] is not None and f.k(lab[1]) == 'CaseStmt':
            n = f.nodes[blk.term].get('cond')
            iv = f.nodes[f.nodes[lab[1]]['lhs']].get('iv')
            c = self.canon(f, n) if n is not None else None
            if c and iv is not None:
                l = ('eq', c[0], int(iv), True, c[1])
                if any(x[0] == 'eq' and x[1] == l[1] and (x[3] and x[2] != l[2] or not x[3] and x[2] == l[2]) for x in st):
                    return None
                return st | {l}
        return st

    def through(self, f, st, blk):
        if not st and blk.id not in self.consts(f):
            return st
        es = f.__dict__.get('_c23by')
        if es is None:
            es = f.__dict__['_c23by'] = {}
            for e in self.effects(f):
                es.setdefault(e[0], []).append(e)
        for b, q, kind, rhs, n in sorted(es.get(blk.id, ()), key=lambda e: blk.elems.index(e[4]) if e[4] in blk.elems else 10 ** 6):
            st = frozenset(x for x in st if not (q == '*' and not x[4] <= self.stable(f) or q in x[4] or q == 'this' and any(r.startswith('this') for r in x[4]) or q.startswith('this.') and 'this' in x[4]))
            if rhs is not None and q.startswith('v:') and kind in ('set', 'assign'):
                iv = f.nodes[f.strip_all(rhs)].get('iv')
                if iv is not None:
                    st = st | {('eq', q, int(iv), True, frozenset([q]))}
                elif 'unsigned' in f.t(f.strip(rhs)) and self.nonzero(f, rhs, st):
                    st = st | {('eq', q, 0, False, frozenset([q]))}
        return st

    def stable(self, f):
        """Local variables that nothing changes once they are declared."""
        r = f.__dict__.get('_c23stable')
        if r is None:
            changed = {e[1] for g in [f] + f.descendant_lambdas() for e in self.effects(g) if e[2] != 'set'}
            r = f.__dict__['_c23stable'] = frozenset('v:' + v for v in f.vars) - changed
        return r

    def consts(self, f):
        c = f.__dict__.get('_c23consts')
        if c is None:
            c = f.__dict__['_c23consts'] = {e[0] for e in self.effects(f) if e[3] is not None}
        return c

    def facts_at(self, f):
        r = f.__dict__.get('_c23facts')
        if r is None:
            r = f.__dict__['_c23facts'] = f.cfg.solve(frozenset(), lambda st, blk: self.through(f, st, blk), lambda a, b: a & b,
                                                      lambda st, blk, lab: self.with_edge(f, st, blk, lab))[0]
        return r

    def feasible(self, f, c, head):
        """Edges inside c that contradict what is known when c is followed from its block head on."""
        cfg = f.cfg
        glob = self.facts_at(f)
        inn = {head: glob.get(head, frozenset())}
        work = [head]
        dead = set()
        rounds = 0
        while work and rounds < 2000:
            rounds += 1
            b = work.pop(0)
            st = self.through(f, inn[b], cfg.blocks[b])
            for s, lab in cfg.edges(b):
                if s not in c:
                    continue
                es = self.with_edge(f, st, cfg.blocks[b], lab)
                if es is None:
                    dead.add((b, s))
                    continue
                dead.discard((b, s))
                es = es | glob.get(s, frozenset())
                if s not in inn:
                    inn[s] = es
                    work.append(s)
                elif inn[s] & es != inn[s]:
                    inn[s] = inn[s] & es
                    if s not in work:
                        work.append(s)
        return dead

    def constref(self, f, n):
        cur = n
        while cur is not None and f.k(cur) != 'DeclStmt':
            p = f.parents.get(cur)
            if p is not None and f.k(p) == 'DeclStmt':
                for v in f.nodes[p].get('vars', ()):
                    if v.get('init') == cur:
                        return f.types[v['t']].startswith('const ')
            cur = p
        return False

    def pointer_passed(self, f, n):
        """A pointer or array that a function which may write through it is given."""
        t = f.t(n)
        if not re.search(r'[*\]]$', t):
            return False
        cur = n
        p = f.parents.get(cur)
        while p is not None and f.k(p) in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr'):
            cur, p = p, f.parents.get(p)
        if p is None or not f.is_call(p) or cur not in f.args(p):
            return False
        i = f.args(p).index(cur)
        pt = f.ptypes(p)
        return i >= len(pt) or not re.match(r'^const .*\*$', pt[i])

    def judge(self, f, S, rep, report):
        cfg = f.cfg
        conds = []
        out = False
        for b in S:
            blk = cfg.blocks[b]
            leaving = [s for s, _ in cfg.edges(b) if s not in S]
            if not leaving:
                continue
            out = True
            if blk.cond is not None:
                conds.append(blk.cond)
            elif blk.term is not None and f.k(blk.term) == 'CXXForRangeStmt':
                return
        if not out:
            return                  # a loop that is meant to run until it is interrupted
        E = [e for e in self.effects(f) if e[0] in S]
        need = set()
        selfchange = []
        ok = set()
        todo = []
        for c in conds:
            r, s, imp = self.reads(f, c)
            todo += list(r)
            if imp:
                w = cfg.where(c)
                if w:
                    ok.add(w[0])
                selfchange.append(c)
        # A condition without any operand (a constant, a call of something unknown) decides nothing.
        graph = {}
        while todo:
            r = todo.pop()
            if r in need:
                continue
            need.add(r)
            for b, q, kind, rhs, n in E:
                if q == r and rhs is not None:
                    ar, st, imp = self.reads(f, rhs)
                    graph.setdefault(r, []).append((b, ar, st, imp, kind, n))
                    todo += list(ar)
        def hit(q):
            return q == '*' or q in need or q == 'this' and any(x.startswith('this') for x in need) or q.startswith('this.') and 'this' in need
        changed_here = {q for b, q, kind, rhs, n in E}
        for b, q, kind, rhs, n in E:
            if rhs is None and hit(q) and not (kind == 'step' and self.idle(f, b, f.kids(n)[1], changed_here)):
                ok.add(b)
        # assignments whose value goes on changing: by themselves, or through a chain of assignments that comes back with a step in it
        reach = {r: set() for r in need}
        for r, l in graph.items():
            for b, ar, st, imp, kind, n in l:
                reach[r] |= ar
        changed = True
        while changed:
            changed = False
            for r in need:
                new = set(reach[r])
                for x in reach[r]:
                    new |= reach.get(x, set())
                if new != reach[r]:
                    reach[r] = new
                    changed = True
        moving = {q for b, q, kind, rhs, n in E}
        rhs_of = {n: rhs for b, q, kind, rhs, n in E}
        for r, l in graph.items():
            for b, ar, st, imp, kind, n in l:
                if imp:
                    ok.add(b)
                elif kind == 'assign' and not ar & moving and not any(f.is_call(x) and SEARCH.search(f.nodes[x].get('f') or '') for x in f.walk(rhs_of[n])):
                    ok.add(b)           # a value that stays the same: what a flag is set to
                elif any(x == r or r in reach.get(x, ()) for x in st):
                    ok.add(b)
        if not conds:
            return
        if not ok & S:
            line = min([f.line_of(c) for c in conds])
            report(conds, line)
            return
        for c in self.sccs(f, S - ok):
            self.split(f, c, rep, report)

    def split(self, f, c, rep, report):
        """The ways round that pass the first block of c, without those that contradict themselves, and then the others."""
        order = self.order(f)
        head = min(c, key=lambda b: order.get(b, 10 ** 6))
        for x in self.sccs(f, c, self.feasible(f, c, head)):
            if head in x:
                self.judge(f, x, rep, report)
        for x in self.sccs(f, c - {head}):
            self.split(f, x, rep, report)

    def order(self, f):
        o = f.__dict__.get('_c23order')
        if o is None:
            seen, post = set(), []
            st = [(f.cfg.entry, iter(f.cfg.edges(f.cfg.entry)))]
            seen.add(f.cfg.entry)
            while st:
                b, it = st[-1]
                for s, _ in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(f.cfg.edges(s))))
                        break
                else:
                    post.append(b)
                    st.pop()
            o = f.__dict__['_c23order'] = {b: i for i, b in enumerate(reversed(post))}
        return o


def check(prog, rep):
    L = Loops(prog)
    seen = set()
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.dn)):
        if 'ThirdParty' in f.file or f.cfg is None:
            continue
        loops = L.sccs(f, f.cfg.reachable())
        if not loops:
            continue
        rep.count('functions with loops')
        for S in loops:
            rep.count('loops')

            def report(conds, line, f=f):
                k = '%s|%s' % (f.qn, 'loop')
                rep.violation('%s|loop' % f.qn, 'src/main/cpp/%s:%d' % (f.file, line),
                              '%s: the loop can go round on a path on which nothing that its ends depend on changes, so that it never ends' % f.dn)
            L.judge(f, S, rep, report)
        rep.sample('functions', f.dn, 60)
    rep.need('loops', 60)
    return ('For every loop of every function (strongly connected parts of the control flow graph, handlers included): the conditions that can end it, and what they depend on through the assignments made in the loop, are computed; every way '
            'round must pass a change of it: a step, a call that modifies it, a result obtained from outside or from a function that changes state, a flag set, or a wait for another thread. A copy, or a search that starts '
            'where the last one ended, is no step.')
