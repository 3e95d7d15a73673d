"""C14: decoding a text as UTF-8 never reads before its beginning or beyond its end, and the decoder's mark for malformed input is never written as a character."""
import re

import bounds
import evalfn
from bounds import STR_T, Z, base

SAFE_ICU = ('utf8_nextCharSafeBody', 'utf8_prevCharSafeBody', 'utf8_back1SafeBody', 'utf8_appendCharSafeBody')

STARTS = ('utf8_prevCharSafeBody', 'utf8_back1SafeBody')


def icu(name):
    return next((s for s in SAFE_ICU if (name or '').split('::')[-1].startswith(s)), None)


class Decode(bounds.Bounds):
    """Bounds with the contracts of the decoding primitives and of the checked helpers of ICU."""

    def __init__(self, prog):
        super().__init__(prog)
        self.prims = {}
        self.open = set()

    def invariant(self, g):
        if g.cls in self.open and g.d.get('access') == 'public':
            return self.TOP       # what an earlier operation left behind is not relied on
        return super().invariant(g)

    def after(self, g):
        return self.prims[g.id]["post"] if g.id in self.prims else super().after(g)

    def call(self, f, st, e):
        d = f.nodes[e]
        s = icu(d.get('f'))
        if d.get('f') == 'std::move' and f.args(e) and f.cls in self.open:
            return st             # a text that is given away is not decoded by this object any more
        if s in ('utf8_prevCharSafeBody',) and len(f.args(e)) >= 3:
            m = f.strip_all(f.args(e)[2])
            if f.nodes[m].get('op') == '&':
                p = f.path(f.kids(m)[0])
                if p:
                    # start <= position afterwards <= position before
                    up = [(y, c) for (x, y), c in self.closed(st).items() if x == p]
                    st = self.forget(st, self.under(p))
                    for y, c in up:
                        st = self.constrain(st, p, 0, y, c) or st
                    v = self.lin(f, st, f.args(e)[1])
                    if v is not None:
                        st = self.constrain(st, v[0], v[1], p, 0) or st
                    return st
        return super().call(f, st, e)

    def assign(self, f, st, p, rhs):
        m = f.strip_all(rhs)
        if f.is_call(m) and icu(f.nodes[m].get('f')) == 'utf8_back1SafeBody':
            v, w = self.lin(f, st, f.args(m)[1]), self.lin(f, st, f.args(m)[2])
            up = [(y, c + w[1]) for (x, y), c in self.closed(st).items() if x == w[0]] if w is not None else []
            st = self.forget(st, self.under(p))
            for y, c in up:
                st = self.constrain(st, p, 0, y, c) or st
            if v is not None:
                st = self.constrain(st, v[0], v[1], p, 0) or st
            return st
        return super().assign(f, st, p, rhs)


def reads(f):
    """Subscripts of the characters of a text reached through data()."""
    for n in f.all_nodes():
        if f.k(n) == 'ArraySubscriptExpr':
            c, i = f.kids(n)[:2]
            m = f.strip_all(c)
            if f.is_call(m) and (f.nodes[m].get('f') or '').split('::')[-1] == 'data' and f.obj(m) is not None and STR_T.match(f.t(f.strip_all(f.obj(m)))):
                yield n, f.obj(m), i


def shape(g):
    """(text parameter, offset parameter) of a function that moves an offset through a text."""
    t = [a for a in g.params if STR_T.match(g.types[a['t']])]
    o = [a for a in g.params if g.types[a['t']] in ('int &', 'size_t &', 'unsigned long &', 'long &', 'unsigned int &')]
    return (t[0], o[0]) if len(t) == 1 and len(o) == 1 else None


class Paths:
    """Every path through a function without loops, each with its own state: what a branch decided stays known after the branches meet."""

    def __init__(self, B, f, init, limit=4000):
        self.B, self.f, self.limit, self.n = B, f, limit, 0
        self.at = {}              # block -> states before its elements
        self.exits = []
        self.ok = True
        self.walk(f.cfg.entry, init, {}, frozenset())

    def walk(self, b, st, taken, seen):
        f, B = self.f, self.B
        self.n += 1
        if b in seen or self.n > self.limit:
            self.ok = False
            return
        if b == f.cfg.exit:
            self.exits.append(st)
            return
        self.at.setdefault(b, []).append(st)
        blk = f.cfg.blocks[b]
        for e in blk.elems:
            st = B.step(f, st, e)
            if st is None:
                return
        for s, lab in f.cfg.edges(b):
            t, k = st, taken
            if lab in (True, False) and blk.cond is not None:
                c = f.nodes[f.strip(blk.cond)]
                if 'iv' in c and bool(int(c['iv'])) != lab:
                    continue
                t = self.cond(st, blk.cond, lab, taken)
                if t is None:
                    continue
                k = dict(taken)
                k[f.strip(blk.cond)] = lab
            self.walk(s, t, k, seen | {b})

    def cond(self, st, n, val, taken):
        f = self.f
        n = f.strip(n)
        if n in taken:
            return st if taken[n] == val else None
        d = f.nodes[n]
        if d['k'] == 'ImplicitCastExpr':
            return self.cond(st, f.kids(n)[0], val, taken)
        if d['k'] == 'BinaryOperator' and d.get('op') in ('&&', '||'):
            a, b = f.kids(n)[:2]
            m = f.strip(a)
            if m in taken or f.nodes[m].get('op') in ('&&', '||'):
                x = self.cond(st, a, d['op'] == '&&', taken)      # the left side decides, or the right side does
                y = self.cond(st, a, d['op'] != '&&', taken)
                if x is None:
                    return y if (d['op'] == '||') == val else None
                if y is None:
                    return self.cond(x, b, val, taken)
        if d['k'] == 'ConditionalOperator':
            c, a, b = f.kids(n)[:3]
            m = f.strip(c)
            if m in taken:
                return self.cond(st, a if taken[m] else b, val, taken)
        return self.B.cond(f, st, n, val)

    def states(self, n):
        w = self.f.cfg.where(n)
        out = []
        for st in self.at.get(w[0], ()) if w else ():
            for e in self.f.cfg.blocks[w[0]].elems[:w[1]]:
                st = self.B.step(self.f, st, e)
                if st is None:
                    break
            if st is not None:
                out.append(st)
        return out

    def result(self):
        res = None
        for o in self.exits:
            res = o if res is None else self.B.join(res, o)
        return res


def needs(g, kind):
    t, o = shape(g)
    T, O = ('#', 'v:' + t['id']), ('v:' + o['id'],)
    return {(Z, O): 0, (O, T): -1} if kind == 'forward' else {(Z, O): -1, (O, T): 0}


class Checker:
    def __init__(self, prog, rep):
        self.P, self.rep = prog, rep
        self.B = Decode(prog)
        self.B.inv = {}

    def inside(self, f, st, c, i):
        x, s = self.B.lin(f, st, i), self.B.size_of(f, st, c)
        return x is not None and s is not None and self.B.leq(st, Z, 0, x[0], x[1]) and self.B.leq(st, x[0], x[1] + 1, s[0], s[1])

    def starts(self, f, st, n):
        v = self.B.lin(f, st, n)
        return v is not None and self.B.leq(st, Z, 0, v[0], v[1])

    def obligation(self, f, st, n, g):
        """Does the call n of primitive g in state st respect what g needs?"""
        p = self.B.prims[g.id]
        for (x, y), c in p['needs'].items():
            a, b = self.B.rebase(f, st, n, g, x), self.B.rebase(f, st, n, g, y)
            if a is None or b is None or not self.B.leq(st, a[0], a[1], b[0], b[1] + c):
                return False
        return True

    def uses(self, f):
        """(node, check of one state) for every place where f reads a text at an offset, directly or through a primitive."""
        for n, c, i in reads(f):
            yield n, (lambda st, c=c, i=i: self.inside(f, st, c, i)), None
        for n in f.calls():
            if icu(f.nodes[n].get('f')) in STARTS and len(f.args(n)) >= 3:
                yield n, (lambda st, n=n: self.starts(f, st, f.args(n)[1])), None
            g = self.P.fns.get(f.nodes[n].get('fid'))
            if g is not None and g.id in self.B.prims and g.id != f.id:
                if self.B.prims[g.id]['needs'] is None:
                    yield n, (lambda st: False), g
                else:
                    yield n, (lambda st, n=n, g=g: self.obligation(f, st, n, g)), g

    def unproven(self, f, init=None):
        us = list(self.uses(f))
        if not us:
            return [], 0
        pt = Paths(self.B, f, init if init is not None else self.B.initial(f, self.B.entry(f)))
        bad = [(n, g) for n, ok, g in us if not all(ok(st) for st in (pt.states(n) if pt.ok else self.B.states(f, n, init)))]
        if bad and pt.ok:
            keep = {n for n, ok, g in us if not all(ok(st) for st in self.B.states(f, n, init))}
            bad = [(n, g) for n, g in bad if n in keep]
        return bad, len(us)

    def classify(self):
        """The primitives: functions that move an offset through a text, with what they need and what they leave."""
        while True:
            new = 0
            for g in sorted(self.P.fns.values(), key=lambda g: (g.file, g.line)):
                if g.cfg is None or g.id in self.B.prims or shape(g) is None or 'ThirdParty' in g.file:
                    continue
                direct = bool(list(reads(g)))
                if not list(self.uses(g)) or not direct and not self.unproven(g)[0]:
                    continue
                for kind in ('forward', 'backward'):
                    w = needs(g, kind)
                    init = (frozenset(w.items()), frozenset())
                    if self.unproven(g, init)[0]:
                        continue
                    pt = Paths(self.B, g, init)
                    o = pt.result() if pt.ok else self.B.exit_state(g, init)
                    post = tuple((k, c) for k, c in self.B.closed(o).items() if self.B.speaks(g, k[0]) and self.B.speaks(g, k[1])) if o is not None else ()
                    self.B.prims[g.id] = {'needs': w, 'post': post, 'kind': kind, 'g': g, 'direct': direct}
                    break
                else:
                    if not direct:
                        continue
                    self.B.prims[g.id] = {'needs': None, 'post': (), 'g': g, 'direct': direct}
                new += 1
                self.B.after_memo.clear()
                self.B.solved.clear()
            if not new:
                return


def family(P, cls):
    """The classes derived from the class."""
    return {f.cls for f in P.fns.values() if f.cls and f.d.get('clsid') and any((P.classes.get(b) or {}).get('qn') == cls for b in P.bases_closure(f.d['clsid']))}


MARK = 0xFFFFFFFF          # what a validating primitive returns for malformed input, as a char32_t
SIGNED = ('int', 'UChar32', 'int32_t', 'long', 'long long', 'short', 'char', 'signed char')


class Mark:
    """Which variables may hold the decoder's mark for malformed input: forward may analysis; a test that the mark would pass or fail is evaluated for it."""

    def __init__(self, P, B):
        self.P, self.B = P, B
        self.memo = {}
        self.tests = {}

    def at(self, g, v):
        """The value of function g of one code point for v, or None."""
        k = (g.id, v)
        if k not in self.memo:
            self.memo[k] = None
            if g.cfg is not None and len(g.params) == 1 and not any(
                    g.k(n) in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr') and base(g.t(n)) in SIGNED and 'iv' not in g.nodes[n] and base(g.t(g.strip_all(n))) == 'char32_t' for n in g.all_nodes()):
                try:
                    self.memo[k] = evalfn.Evaluator(self.P).run(g, [v])
                except (evalfn.Unknown, evalfn.Thrown):
                    pass
        return self.memo[k]

    def value(self, f, st, n):
        """The value of n when every variable of st holds the mark, or None."""
        d = f.nodes[n]
        k = d['k']
        if 'iv' in d:
            return int(d['iv'])
        if k == 'DeclRefExpr' and d.get('v') in st:
            return MARK
        if k in ('ParenExpr', 'ExprWithCleanups', 'ConstantExpr'):
            return self.value(f, st, f.kids(n)[0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and f.kids(n):
            v = self.value(f, st, f.kids(n)[0])
            if isinstance(v, int) and v == MARK and base(f.t(n)) in ('int', 'UChar32', 'int32_t'):
                return -1
            if v == -1 and bounds.unsigned(f.t(n)):
                return MARK
            return v
        if k == 'UnaryOperator' and d.get('op') == '!':
            v = self.value(f, st, f.kids(n)[0])
            return None if v is None else int(not v)
        if k == 'BinaryOperator' and d.get('op') in evalfn.CMP:
            a, b = (self.value(f, st, x) for x in f.kids(n)[:2])
            return None if a is None or b is None else int(evalfn.CMP[d['op']](a, b))
        if k == 'BinaryOperator' and d.get('op') in ('&&', '||'):
            a, b = (self.value(f, st, x) for x in f.kids(n)[:2])
            for x in (a, b):
                if x is not None and bool(x) == (d['op'] == '||'):
                    return int(d['op'] == '||')
            return None if a is None or b is None else int(d['op'] == '&&')
        if f.is_call(n) and len(f.args(n)) == 1 and f.args(n)[0] >= 0:
            v = self.value(f, st, f.args(n)[0])
            g = self.P.fns.get(d.get('fid'))
            if v == MARK and g is not None:
                r = self.at(g, v)
                if isinstance(r, (int, bool)):
                    self.tests[g.id] = g
                    return int(r)
        return None

    def marked(self, f, st, n):
        """May the value of n be the mark?"""
        m = f.strip_all(n)
        d = f.nodes[m]
        if d['k'] == 'DeclRefExpr':
            return d.get('v') in st
        if d['k'] == 'ConditionalOperator':
            c, a, b = f.kids(m)[:3]
            return any(self.marked(f, frozenset(v for v in st if self.value(f, {v}, c) in (None, val)), x) for x, val in ((a, 1), (b, 0)))
        if f.is_call(m):
            if base(f.t(m)) not in ('char32_t', 'int', 'UChar32', 'int32_t'):
                return False
            p = self.B.prims.get(d.get('fid'))
            if p is not None and p['direct']:
                return base(f.t(m)) == 'char32_t'
            args = [i for i, a in enumerate(f.args(m)) if a >= 0 and self.marked(f, st, a)]
            g = self.P.fns.get(d.get('fid'))
            if g is None or g.cfg is None:
                return bool(args)
            return self.returns(g, frozenset(g.params[i]['id'] for i in args if i < len(g.params)))
        return False

    def step(self, f, st, e):
        d = f.nodes[e]
        if d['k'] == 'DeclStmt':
            for v in d.get('vars', ()):
                if isinstance(v, dict) and 'init' in v and self.marked(f, st, v['init']):
                    st = st | {v['id']}
                elif isinstance(v, dict):
                    st = st - {v['id']}
        elif d.get('asg') and d.get('op') == '=':
            l = f.nodes[f.strip_all(f.kids(e)[0])]
            if l['k'] == 'DeclRefExpr' and 'v' in l:
                st = st | {l['v']} if self.marked(f, st, f.kids(e)[1]) else st - {l['v']}
        elif f.is_call(e):
            for a in f.args(e):      # a checking function that does not return for the mark
                if a >= 0 and f.nodes[f.strip_all(a)].get('v') in st and len(f.args(e)) == 1:
                    g = self.P.fns.get(d.get('fid'))
                    if g is not None and self.refuses(g):
                        st = st - {f.nodes[f.strip_all(a)]['v']}
        return st

    def returns(self, g, init):
        """May g return the mark when the parameters of init hold it?"""
        k = (g.id, init)
        if k not in self.memo:
            self.memo[k] = False
            inn = self.solve(g, init)
            for n in g.all_nodes():
                if g.k(n) == 'ReturnStmt' and g.kids(n):
                    st = self.before(g, n, inn)
                    if st is not None and self.marked(g, st, g.kids(n)[0]):
                        self.memo[k] = True
        return self.memo[k]

    def refuses(self, g):
        """Does g(mark) never return?"""
        if len(g.params) != 1 or g.cfg is None:
            return False
        k = (g.id, 'refuses')
        if k not in self.memo:
            self.memo[k] = False
            inn = self.solve(g, frozenset({g.params[0]['id']}))
            self.memo[k] = not any(b in inn and g.params[0]['id'] in inn[b] for b in g.cfg.normal_exit_preds())
        return self.memo[k]

    def edge(self, f, st, blk, s, lab):
        if lab in (True, False) and blk.cond is not None:
            return frozenset(v for v in st if self.value(f, {v}, blk.cond) in (None, int(lab)))
        if blk.term is not None and f.k(blk.term) == 'SwitchStmt':
            c = f.cfg.blocks[s].label
            if c is not None and f.k(c) == 'CaseStmt':
                iv = f.nodes[f.nodes[c]['lhs']].get('iv')
                return frozenset(v for v in st if iv is None or self.value(f, {v}, f.nodes[blk.term]['cond']) in (None, int(iv)))
        return st

    def solve(self, f, init=frozenset()):
        inn = {f.cfg.entry: init}
        todo = [f.cfg.entry]
        while todo:
            b = todo.pop()
            st = inn[b]
            blk = f.cfg.blocks[b]
            for e in blk.elems:
                if isinstance(e, int):
                    st = self.step(f, st, e)
            for s, lab in f.cfg.edges(b):
                t = self.edge(f, st, blk, s, lab)
                if s not in inn or not t <= inn[s]:
                    inn[s] = inn.get(s, frozenset()) | t
                    todo.append(s)
        return inn

    def before(self, f, n, inn):
        w = f.cfg.where(n)
        if w is None or w[0] not in inn:
            return None
        st = inn[w[0]]
        for e in f.cfg.blocks[w[0]].elems[:w[1]]:
            if isinstance(e, int):
                st = self.step(f, st, e)
        return st


def writers(P):
    """Functions that encode a code point into a text without asking whether it is one: {id: parameter index}."""
    out = {}
    for g in P.fns.values():
        if g.cfg is None or 'ThirdParty' in g.file:
            continue
        cs = [(i, a) for i, a in enumerate(g.params) if base(g.types[a['t']]) == 'char32_t']
        ts = {a['id'] for a in g.params if STR_T.match(g.types[a['t']]) and g.types[a['t']].endswith('&') and not g.types[a['t']].startswith('const ')}
        if len(cs) != 1 or not ts:
            continue
        from_c = {cs[0][1]['id']}
        for n in g.all_nodes():
            d = g.nodes[n]
            if d['k'] == 'DeclStmt':
                from_c |= {v['id'] for v in d.get('vars', ()) if isinstance(v, dict) and 'init' in v and g.nodes[g.strip_all(v['init'])].get('v') in from_c}
        for n in g.all_nodes():
            d = g.nodes[n]
            if d.get('asg') and d.get('op') == '=' and g.k(g.strip(g.kids(n)[0])) == 'ArraySubscriptExpr' and any(g.nodes[x].get('v') in from_c for x in g.walk(g.kids(n)[1])) and any(
                    g.nodes[x].get('v') in ts for x in g.walk(g.kids(n)[0])):
                out[g.id] = cs[0][0]
    return out


def check(prog, rep):
    ch = Checker(prog, rep)
    ch.classify()
    B = ch.B
    for p in B.prims.values():
        rep.count('decoding primitives')
        rep.count('primitives that stay inside every text' if p['needs'] is not None else 'primitives that trust the text (only their callers are reported)')
    cands = {}
    for f in prog.fns.values():
        if f.cfg is None or not f.cls or 'ThirdParty' in f.file:
            continue
        for n in f.calls():
            g = prog.fns.get(f.nodes[n].get('fid'))
            if g is not None and g.id in B.prims:
                t, o = shape(g)
                at = {a['id']: f.args(n)[i] for i, a in enumerate(g.params) if i < len(f.args(n)) and f.args(n)[i] >= 0}
                if t['id'] not in at or o['id'] not in at:
                    continue
                v = B.size_of(f, B.TOP, at[t['id']])
                t, o = v[0][1:] if v is not None and v[0] != Z else None, f.path(f.strip_all(at[o['id']]))
                if t and o and t[0] == o[0] == 'this' and len(t) == len(o) == 2:
                    cands.setdefault(f.cls, {}).update({(o, ('#',) + t): 0, (Z, o): 0})
    for c in list(cands):
        for d in family(prog, c):
            cands.setdefault(d, {}).update(cands[c])
    B.open = set(cands)
    B.infer(cands)
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.dn)):
        if f.cfg is None or 'ThirdParty' in f.file or f.id in B.prims:
            continue
        bad, n = ch.unproven(f)
        rep.count('places where a text is decoded at an offset', n)
        for m, g in bad:
            if g is not None and B.prims[g.id]['needs'] is None:
                rep.violation('%s|%s' % (f.qn, g.name if hasattr(g, 'name') else g.qn.split('::')[-1]), f.loc(m), '%s: decodes with %s, which trusts the text to be well formed and reads beyond its end when it is cut short' % (f.dn, g.qn.split('::')[-1]))
            else:
                rep.violation('%s|offset' % f.qn, f.loc(m), '%s: nothing on some path to this point establishes that the offset is inside the text that is decoded here' % f.dn)
    mk = Mark(prog, B)
    ws = writers(prog)
    rep.count('functions that encode a code point as it is given', len(ws))
    for f in sorted(prog.fns.values(), key=lambda f: (f.file, f.line, f.dn)):
        if f.cfg is None or 'ThirdParty' in f.file:
            continue
        inn = None
        for n in f.calls():
            i = ws.get(f.nodes[n].get('fid'))
            if i is not None and i < len(f.args(n)):
                inn = inn or mk.solve(f)
                st = mk.before(f, n, inn)
                rep.count('code points encoded')
                if st is not None and mk.marked(f, st, f.args(n)[i]):
                    rep.violation('%s|mark' % f.qn, f.loc(n), '%s: on some path the decoder\'s mark for malformed input is encoded here as if it were a code point, which writes more bytes than were counted for it' % f.dn)
            elif f.nodes[n].get('fid') in B.prims and base(f.t(n)) == 'char32_t':
                inn = inn or mk.solve(f)
                up = f.parents.get(n)
                while up is not None and f.k(up) in ('ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr', 'CStyleCastExpr'):
                    up = f.parents.get(up)
                rep.count('decoded code points')
                if up is None or f.k(up) == 'CompoundStmt':
                    rep.violation('%s|dropped' % f.qn, f.loc(n), '%s: the result of decoding is dropped here, so malformed input is never noticed' % f.dn)
        for n in f.all_nodes():
            d = f.nodes[n]
            if d['k'] == 'BinaryOperator' and d.get('op') in ('<', '>=') and f.nodes[f.strip_all(f.kids(n)[1])].get('iv') in (0, '0') and base(f.t(f.strip_all(f.kids(n)[0]))) == 'char32_t' and bounds.unsigned(f.t(f.strip(f.kids(n)[0]))):
                rep.violation('%s|vacuous' % f.qn, f.loc(n), '%s: this test for malformed input compares an unsigned code point with zero, so malformed input is never noticed' % f.dn)
    for g in sorted(mk.tests.values(), key=lambda g: g.qn):
        v = [mk.at(g, c) for c in (0, 0x61, 0x7F, 0x80, 0x7FF, 0x800, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF)]
        if not mk.at(g, MARK) and all(v[:3]):
            rep.count('validity tests evaluated')
            if not all(v):
                rep.violation('%s|range' % g.qn, g.loc(0), '%s: some code point that a well-formed text may contain is taken for malformed input' % g.dn)
    rep.need('primitives that stay inside every text', 4)
    rep.need('places where a text is decoded at an offset', 15)
    rep.need('functions that encode a code point as it is given', 1)
    return ('Difference-bound dataflow, path by path where a function has no loops: each decoding primitive is shown to read only inside the text given that its offset is inside (or is classed as trusting the text); every call needs '
            'the offset inside the text, class invariants and entry states inferred, and no call may use a trusting primitive; a may analysis follows the mark for malformed input to the encoders, tests evaluated for the mark.')
